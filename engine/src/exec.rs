//! Symbolic execution of the IR.
//!
//! A `State` is one path: concrete control, values that are constants or expressions over
//! the symbolic input bytes, and the path condition (one 256-bit set per byte for the
//! constraints that mention a single byte, a list of expressions for the rest). Every
//! branch whose condition is symbolic is decided by the solver for both outcomes and the
//! path forks when both are possible, so the set of explored paths covers every input the
//! harness admits. What cannot be decided (solver timeout, unsupported instruction, path
//! longer than the step limit) is reported and makes the run inconclusive.

use crate::expr::*;
use crate::ir::*;
use crate::solver::{Res, Solver};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub bytes: Vec<u8>,
    pub sym: Option<Vec<u32>>, // 0 = concrete, else expression + 1 (8 bits wide)
    pub ro: bool,
}

impl Obj {
    fn new(n: usize) -> Obj {
        Obj { bytes: vec![0; n], sym: None, ro: false }
    }
    fn get(&self, i: usize) -> Result<u8, E> {
        if let Some(s) = &self.sym {
            if s[i] != 0 {
                return Err(s[i] - 1);
            }
        }
        Ok(self.bytes[i])
    }
    fn set_c(&mut self, i: usize, v: u8) {
        self.bytes[i] = v;
        if let Some(s) = &mut self.sym {
            s[i] = 0;
        }
    }
    fn set_e(&mut self, i: usize, e: E) {
        let n = self.bytes.len();
        self.sym.get_or_insert_with(|| vec![0; n])[i] = e + 1;
    }
}

pub struct Frame {
    pub f: &'static Func,
    pub fi: u32,
    pub regs: Vec<V>,
    pub bb: u32,
    pub pc: u32,
    pub ret: Option<u32>,
    pub normal: Option<u32>,
    pub stack_base: u32,
}
impl Clone for Frame {
    fn clone(&self) -> Self {
        Frame { f: self.f, fi: self.fi, regs: self.regs.clone(), bb: self.bb, pc: self.pc, ret: self.ret, normal: self.normal, stack_base: self.stack_base }
    }
}

const CH: usize = 32;
type Chunk = Vec<Option<Rc<Obj>>>;

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    stack: Vec<Rc<Obj>>,
    heap: Vec<Rc<Chunk>>,
    heap_n: u32,
    free: Vec<u32>,
    globs: Rc<HashMap<u32, Rc<Obj>>>,
    pub cons: Vec<E>,
    pub dom: Rc<Vec<[u64; 4]>>,
    pub model: Rc<Vec<u8>>,
    multi: Sup,
    pub nsym: usize,
    pub steps: u64,
    pub outs: Vec<(V, u32)>,
    pub covers: Rc<BTreeSet<String>>,
    pub heap_live: u64,
    pub heap_peak: u64,
    pub flags: u32,
    pub max_alloc: u64,
}

pub const STUB_FMT: u32 = 1;
pub const STUB_HASH: u32 = 2;
pub const SUM_UTF8: u32 = 4;

const STACK_ID: u64 = 0x0010_0000;
const HEAP_ID: u64 = 0x0100_0000;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String, // assert / panic / memory / limit / ...
    pub id: String,
    pub model: Vec<u8>,
    pub trace: Vec<String>,
}

#[derive(Debug)]
pub enum Stop {
    Done,           // the path reached the end of the harness
    Pruned,         // an assumption cannot hold
    Forked,         // breadth-first phase: the state was put back in the queue
    Bad(String, String), // violation: kind, id
    Err(String),    // engine limitation: the run is inconclusive
}

#[derive(Default)]
pub struct Report {
    pub done: u64,
    pub pruned: u64,
    pub bad: u64,
    pub viol: Vec<Violation>,
    pub errs: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub asserts: u64,
    pub forks: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub max_peak: u64,
    pub funcs: BTreeSet<String>,
    pub samples: Vec<(Vec<u8>, String)>, // model, digest of the outputs
    pub left: u64,                       // states not explored (deadline, violation cap)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi {
    None,
    User,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcpy,
    Memset,
    Bcmp,
    Memcmp,
    Memchr,
    Strlen,
    Getrandom,
    Abort,
    PanicFn,
    FmtWrite,
    HashWrite,
    FromUtf8,
    SymBytes,
    SymAssume,
    SymAssert,
    SymFail,
    SymCover,
    SymNote,
    SymOut,
    SymStub,
    SymLimit,
    SymConc,
    SymIsEngine,
    SymIte,
    Intr,
    Unknown,
}

pub struct Exec {
    pub m: &'static Module,
    pub ctx: Ctx,
    pub sol: Solver,
    pub work: VecDeque<State>,
    pub rep: Report,
    bi: Vec<Option<Bi>>,
    tls: HashMap<String, u64>,
    glob_base: HashMap<u32, Rc<Obj>>,
    pub max_steps: u64,
    pub max_viol: usize,
    pub sample_mod: u64,
    pub seed: u64,
    pub deadline: std::time::Instant,
    pub bfs: bool,
    viol_count: HashMap<String, u32>,
    pub trace_fn: bool,
    pub max_samples: usize,
    fork_sites: HashMap<(u32, u32, u32), u64>,
    pub profile: bool,
}

fn fits(w: u32) -> u128 {
    mask(w)
}

type SR<T> = Result<T, Stop>;

impl Exec {
    pub fn new(m: &'static Module, timeout_ms: u32) -> Exec {
        let n = m.funcs.len();
        Exec {
            m,
            ctx: Ctx::new(),
            sol: Solver::new(timeout_ms),
            work: VecDeque::new(),
            rep: Report::default(),
            bi: vec![None; n],
            tls: HashMap::new(),
            glob_base: HashMap::new(),
            max_steps: 50_000_000,
            max_viol: 20,
            sample_mod: 1,
            seed: 1,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(3600),
            bfs: false,
            viol_count: HashMap::new(),
            trace_fn: false,
            max_samples: 40,
            fork_sites: HashMap::new(),
            profile: false,
        }
    }

    pub fn initial(&mut self, entry: &str, preset: Option<Vec<u8>>) -> Result<State, String> {
        let fi = *self.m.fn_ix.get(entry).ok_or(format!("no function {entry} in the IR"))?;
        let f = self.func(fi).ok_or("no body")?;
        let mut st = State {
            frames: vec![],
            stack: vec![],
            heap: vec![],
            heap_n: 0,
            free: vec![],
            globs: Rc::new(HashMap::new()),
            cons: vec![],
            dom: Rc::new(vec![]),
            model: Rc::new(preset.unwrap_or_default()),
            multi: SUP0,
            nsym: 0,
            steps: 0,
            outs: vec![],
            covers: Rc::new(BTreeSet::new()),
            heap_live: 0,
            heap_peak: 0,
            flags: 0,
            max_alloc: 1 << 28,
        };
        st.frames.push(Rc::new(Frame { f, fi, regs: vec![V::C(0); f.nregs], bb: 0, pc: 0, ret: None, normal: None, stack_base: 0 }));
        Ok(st)
    }

    fn func(&self, i: u32) -> Option<&'static Func> {
        self.m.func(i).map(|r| {
            // functions live as long as the (leaked) module
            let p: *const Func = &*r;
            unsafe { &*p }
        })
    }

    // ---------------------------------------------------------------- path condition

    fn relevant(&self, st: &State, e: E) -> (Vec<E>, Sup) {
        let mut sup = *self.ctx.sup(e);
        let mut used = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, c) in st.cons.iter().enumerate() {
                if !used[i] && sup_meets(&sup, self.ctx.sup(*c)) {
                    used[i] = true;
                    sup = sup_or(&sup, self.ctx.sup(*c));
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        (st.cons.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, c)| *c).collect(), sup)
    }

    /// A model of the path condition extended by `e`, if there is one.
    fn feasible(&mut self, st: &State, e: E) -> SR<Option<Rc<Vec<u8>>>> {
        if let Some(k) = self.ctx.as_const(e) {
            return Ok(if k == 1 { Some(st.model.clone()) } else { None });
        }
        if self.ctx.eval(e, &st.model) == 1 {
            return Ok(Some(st.model.clone()));
        }
        let sup = *self.ctx.sup(e);
        if let Some(b) = sup_single(&sup) {
            let t = self.ctx.truth(e, b);
            let d = st.dom[b];
            let mut pick = None;
            for i in 0..4 {
                let x = d[i] & t[i];
                if x != 0 {
                    pick = Some(i * 64 + x.trailing_zeros() as usize);
                    break;
                }
            }
            match pick {
                None => {
                    self.sol.stats.table += 1;
                    return Ok(None);
                }
                Some(v) => {
                    if !sup_meets(&sup, &st.multi) {
                        self.sol.stats.table += 1;
                        let mut m = (*st.model).clone();
                        m[b] = v as u8;
                        return Ok(Some(Rc::new(m)));
                    }
                }
            }
        }
        let (mut q, sup) = self.relevant(st, e);
        q.push(e);
        let doms: Vec<(usize, [u64; 4])> = sup_iter(&sup).into_iter().map(|b| (b, st.dom[b])).collect();
        match self.sol.check(&self.ctx, &q, &doms) {
            Res::Sat(v) => {
                let mut m = (*st.model).clone();
                for (b, x) in v {
                    m[b] = x;
                }
                // the model has to satisfy what was asked (guards against translation slips)
                for c in &q {
                    if self.ctx.eval(*c, &m) != 1 {
                        return Err(Stop::Err("solver model does not satisfy the query".into()));
                    }
                }
                Ok(Some(Rc::new(m)))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Err("solver timeout".into())),
        }
    }

    /// Adds `e` (known to hold in `st.model`).
    fn add(&mut self, st: &mut State, e: E) {
        if self.ctx.as_const(e).is_some() {
            return;
        }
        let n = self.ctx.nodes[e as usize];
        match n.op {
            Op::And => {
                self.add(st, n.a[0]);
                self.add(st, n.a[1]);
                return;
            }
            Op::Xor if self.ctx.as_const(n.a[0]) == Some(1) => {
                let x = self.ctx.nodes[n.a[1] as usize];
                if x.op == Op::Or {
                    let a = self.ctx.not1(x.a[0]);
                    let b = self.ctx.not1(x.a[1]);
                    self.add(st, a);
                    self.add(st, b);
                    return;
                }
            }
            _ => {}
        }
        let sup = *self.ctx.sup(e);
        if let Some(b) = sup_single(&sup) {
            let t = self.ctx.truth(e, b);
            let d = &mut Rc::make_mut(&mut st.dom)[b];
            for i in 0..4 {
                d[i] &= t[i];
            }
        } else if !st.cons.contains(&e) {
            st.cons.push(e);
            st.multi = sup_or(&st.multi, &sup);
        }
    }

    /// Value of a condition on this path; forks when both values are possible. The sibling
    /// executes the current instruction again with the opposite value assumed.
    fn decide(&mut self, st: &mut State, e: E) -> SR<bool> {
        if let Some(k) = self.ctx.as_const(e) {
            return Ok(k == 1);
        }
        if st.cons.contains(&e) {
            return Ok(true);
        }
        let now = self.ctx.eval(e, &st.model) == 1;
        let ne = self.ctx.not1(e);
        if st.cons.contains(&ne) {
            return Ok(false);
        }
        let (keep, other) = if now { (e, ne) } else { (ne, e) };
        if let Some(m) = self.feasible(st, other)? {
            let mut sib = st.clone();
            sib.model = m;
            self.add(&mut sib, other);
            self.work.push_back(sib);
            self.rep.forks += 1;
            if self.profile {
                let f = st.frames.last().unwrap();
                *self.fork_sites.entry((f.fi, f.bb, f.pc)).or_insert(0) += 1;
            }
            self.add(st, keep);
        }
        Ok(now)
    }

    /// An allocation size: the value when it is known, otherwise a bound no feasible value
    /// exceeds. The object may then be larger than what the program asked for, which only
    /// weakens the out-of-bounds check on that object (the program's own length checks are
    /// executed as they are); sizes are not enumerated.
    fn size_bound(&mut self, st: &mut State, v: &V, w: u32) -> SR<u64> {
        let e = match v {
            V::C(k) => return Ok(u64::try_from(*k).unwrap_or(u64::MAX)),
            V::E(e) => *e,
            V::A(_) => return Err(Stop::Err("aggregate where a size was expected".into())),
        };
        // an allocation above the limit is a violation: report it whenever it is possible
        let big = self.ctx.c(st.max_alloc as u128, w);
        let over = self.ctx.ult(big, e);
        if self.decide(st, over)? {
            return Ok(u64::MAX);
        }
        for b in [64u64, 512, 4096, 65536, 1 << 20, 1 << 24] {
            let k = self.ctx.c(b as u128, w);
            let over = self.ctx.ult(k, e);
            if self.feasible(st, over)?.is_none() {
                return Ok(b);
            }
        }
        Ok(st.max_alloc)
    }

    fn concretize(&mut self, st: &mut State, v: &V, w: u32) -> SR<u128> {
        match v {
            V::C(k) => Ok(*k),
            V::E(e) => {
                let e = *e;
                if let Some(k) = self.ctx.as_const(e) {
                    return Ok(k);
                }
                let val = self.ctx.eval(e, &st.model);
                let k = self.ctx.c(val, w);
                let q = self.ctx.eq(e, k);
                if self.decide(st, q)? {
                    Ok(val)
                } else {
                    unreachable!("the model decides")
                }
            }
            V::A(_) => Err(Stop::Err("aggregate where a scalar was expected".into())),
        }
    }

    // ---------------------------------------------------------------- memory

    fn obj(&mut self, st: &State, addr: u64) -> SR<(Rc<Obj>, usize)> {
        let id = addr >> 32;
        let mut off = (addr & 0xffff_ffff) as usize;
        if id == 0 || addr >= FN_TAG {
            return Err(Stop::Bad("memory".into(), format!("access through an invalid pointer {addr:#x}")));
        }
        let id = id - 1;
        let o = if id >= HEAP_ID {
            let i = (id - HEAP_ID) as usize;
            st.heap.get(i / CH).and_then(|c| c[i % CH].clone())
        } else if id >= STACK_ID {
            st.stack.get((id - STACK_ID) as usize).cloned()
        } else {
            let i;
            (i, off) = gl_of(addr);
            if id != 0 || i as usize >= self.m.globals.len() {
                return Err(Stop::Bad("memory".into(), format!("access through an invalid pointer {addr:#x}")));
            }
            if let Some(o) = st.globs.get(&i) {
                Some(o.clone())
            } else {
                Some(self.glob(i))
            }
        };
        match o {
            Some(o) => Ok((o, off)),
            None => Err(Stop::Bad("memory".into(), "use after free".into())),
        }
    }
    fn glob(&mut self, i: u32) -> Rc<Obj> {
        if let Some(o) = self.glob_base.get(&i) {
            return o.clone();
        }
        let g = &self.m.globals[i as usize];
        let o = Rc::new(Obj { bytes: (*self.m.global_init(i)).clone(), sym: None, ro: g.constant });
        self.glob_base.insert(i, o.clone());
        o
    }
    /// Mutable access to the object behind `addr`.
    fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64, n: usize) -> SR<(&'a mut Obj, usize)> {
        let id = addr >> 32;
        let mut off = (addr & 0xffff_ffff) as usize;
        if id == 0 || addr >= FN_TAG {
            return Err(Stop::Bad("memory".into(), format!("access through an invalid pointer {addr:#x}")));
        }
        let id = id - 1;
        let o: Option<&mut Rc<Obj>> = if id >= HEAP_ID {
            let i = (id - HEAP_ID) as usize;
            match st.heap.get_mut(i / CH) {
                Some(c) => Rc::make_mut(c)[i % CH].as_mut(),
                None => None,
            }
        } else if id >= STACK_ID {
            st.stack.get_mut((id - STACK_ID) as usize)
        } else {
            let i;
            (i, off) = gl_of(addr);
            if id != 0 || i as usize >= self.m.globals.len() {
                return Err(Stop::Bad("memory".into(), format!("access through an invalid pointer {addr:#x}")));
            }
            let base = self.glob(i);
            if base.ro {
                return Err(Stop::Bad("memory".into(), "write to a constant".into()));
            }
            Some(Rc::make_mut(&mut st.globs).entry(i).or_insert(base))
        };
        let Some(o) = o else {
            return Err(Stop::Bad("memory".into(), "write after free".into()));
        };
        let o = Rc::make_mut(o);
        if off + n > o.bytes.len() {
            return Err(Stop::Bad("memory".into(), format!("write out of bounds: {n} bytes at {off} of {}", o.bytes.len())));
        }
        Ok((o, off))
    }
    fn heap_new(&mut self, st: &mut State, n: u64) -> u64 {
        let i = if let Some(i) = st.free.pop() {
            i
        } else {
            let i = st.heap_n;
            st.heap_n += 1;
            if i as usize / CH >= st.heap.len() {
                st.heap.push(Rc::new(vec![None; CH]));
            }
            i
        };
        Rc::make_mut(&mut st.heap[i as usize / CH])[i as usize % CH] = Some(Rc::new(Obj::new(n as usize)));
        st.heap_live += n;
        st.heap_peak = st.heap_peak.max(st.heap_live);
        (HEAP_ID + i as u64 + 1) << 32
    }
    fn heap_free(&mut self, st: &mut State, addr: u64) -> SR<()> {
        if addr == 0 {
            return Ok(());
        }
        let id = (addr >> 32).wrapping_sub(1);
        if id < HEAP_ID || addr & 0xffff_ffff != 0 {
            return Err(Stop::Bad("memory".into(), "free of an invalid pointer".into()));
        }
        let i = (id - HEAP_ID) as usize;
        match st.heap.get_mut(i / CH) {
            Some(c) => {
                let slot = &mut Rc::make_mut(c)[i % CH];
                match slot.take() {
                    Some(o) => {
                        st.heap_live -= o.bytes.len() as u64;
                        st.free.push(i as u32);
                        Ok(())
                    }
                    None => Err(Stop::Bad("memory".into(), "double free".into())),
                }
            }
            None => Err(Stop::Bad("memory".into(), "free of an invalid pointer".into())),
        }
    }

    fn load_scalar(&mut self, o: &Obj, off: usize, n: usize, w: u32) -> SR<V> {
        if off + n > o.bytes.len() {
            return Err(Stop::Bad("memory".into(), format!("read out of bounds: {n} bytes at {off} of {}", o.bytes.len())));
        }
        if o.sym.as_ref().map_or(true, |s| s[off..off + n].iter().all(|x| *x == 0)) {
            let mut v = 0u128;
            for i in (0..n).rev() {
                v = (v << 8) | o.bytes[off + i] as u128;
            }
            return Ok(V::C(v & fits(w)));
        }
        let mut acc: Option<E> = None;
        for i in 0..n {
            let b = match o.get(off + i) {
                Ok(c) => self.ctx.c(c as u128, 8),
                Err(e) => e,
            };
            acc = Some(match acc {
                None => b,
                Some(l) => self.ctx.concat(b, l),
            });
        }
        let e = acc.unwrap();
        let e = if w < 8 * n as u32 { self.ctx.extract(e, 0, w) } else { e };
        Ok(self.ve(e))
    }
    fn load(&mut self, st: &State, addr: u64, ty: &Ty) -> SR<V> {
        let (o, off) = self.obj(st, addr)?;
        self.load_ty(&o, off, ty)
    }
    fn load_ty(&mut self, o: &Obj, off: usize, ty: &Ty) -> SR<V> {
        if ty.is_agg() {
            if let Ty::Vect(_, t) = ty {
                if t.bits() % 8 != 0 {
                    // packed
                    let w = ty.nfields() as u32 * t.bits();
                    let x = self.load_scalar(o, off, ((w + 7) / 8) as usize, w)?;
                    return self.cast(CastK::BitcastVec, &Ty::Int(w), ty, &x);
                }
            }
            let n = ty.nfields();
            let mut v = Vec::with_capacity(n);
            for i in 0..n {
                v.push(self.load_ty(o, off + ty.field_off(i) as usize, ty.field(i))?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        self.load_scalar(o, off, ((ty.bits() + 7) / 8) as usize, ty.bits())
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &V) -> SR<()> {
        match v {
            V::A(_) if matches!(ty, Ty::Vect(_, t) if t.bits() % 8 != 0) => {
                // packed
                let (e, w) = self.flatten(v, ty)?;
                let x = self.ve(e);
                self.store(st, addr, &Ty::Int(w), &x)
            }
            V::C(_) | V::E(_) if ty.is_agg() => Err(Stop::Err("store of a scalar as an aggregate".into())),
            V::A(vs) => {
                for (i, x) in vs.clone().iter().enumerate() {
                    self.store(st, addr + ty.field_off(i), ty.field(i), x)?;
                }
                Ok(())
            }
            V::C(k) => {
                let n = ((ty.bits() + 7) / 8) as usize;
                let (o, off) = self.obj_mut(st, addr, n)?;
                for i in 0..n {
                    o.set_c(off + i, (k >> (8 * i)) as u8);
                }
                Ok(())
            }
            V::E(e) => {
                let w = ty.bits();
                let n = ((w + 7) / 8) as usize;
                let e = if w % 8 != 0 { self.ctx.zext(*e, 8 * n as u32) } else { *e };
                let parts: Vec<E> = (0..n).map(|i| self.ctx.extract(e, 8 * i as u32, 8)).collect();
                let cs: Vec<Option<u128>> = parts.iter().map(|p| self.ctx.as_const(*p)).collect();
                let (o, off) = self.obj_mut(st, addr, n)?;
                for i in 0..n {
                    match cs[i] {
                        Some(k) => o.set_c(off + i, k as u8),
                        None => o.set_e(off + i, parts[i]),
                    }
                }
                Ok(())
            }
        }
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: usize) -> SR<()> {
        if n == 0 {
            return Ok(());
        }
        let (s, so) = self.obj(st, src)?;
        if so + n > s.bytes.len() {
            return Err(Stop::Bad("memory".into(), format!("copy reads out of bounds: {n} bytes at {so} of {}", s.bytes.len())));
        }
        let bytes = s.bytes[so..so + n].to_vec();
        let sym = s.sym.as_ref().map(|x| x[so..so + n].to_vec());
        drop(s);
        let (d, o) = self.obj_mut(st, dst, n)?;
        d.bytes[o..o + n].copy_from_slice(&bytes);
        match sym {
            Some(x) if x.iter().any(|v| *v != 0) => {
                let l = d.bytes.len();
                d.sym.get_or_insert_with(|| vec![0; l])[o..o + n].copy_from_slice(&x);
            }
            _ => {
                if let Some(x) = &mut d.sym {
                    x[o..o + n].fill(0);
                }
            }
        }
        Ok(())
    }

    // ---------------------------------------------------------------- values

    fn ve(&self, e: E) -> V {
        match self.ctx.as_const(e) {
            Some(k) => V::C(k),
            None => V::E(e),
        }
    }
    fn ee(&mut self, v: &V, w: u32) -> SR<E> {
        match v {
            V::C(k) => Ok(self.ctx.c(*k, w)),
            V::E(e) => {
                if self.ctx.w(*e) != w {
                    return Err(Stop::Err(format!("width {} where {} was expected", self.ctx.w(*e), w)));
                }
                Ok(*e)
            }
            V::A(_) => Err(Stop::Err("aggregate where a scalar was expected".into())),
        }
    }
    fn bin(&mut self, op: Op, w: u32, a: &V, b: &V) -> SR<V> {
        match (a, b) {
            (V::C(x), V::C(y)) => {
                if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) && *y == 0 {
                    return Err(Stop::Bad("panic".into(), "division by zero in the IR".into()));
                }
                let n = Node { op, w, k: 0, a: [0; 3] };
                Ok(V::C(eval_op(&n, *x, *y, w, w)))
            }
            (V::A(x), V::A(y)) => {
                let mut r = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    r.push(self.bin(op, w, p, q)?);
                }
                Ok(V::A(Rc::new(r)))
            }
            _ => {
                let x = self.ee(a, w)?;
                let y = self.ee(b, w)?;
                let e = self.ctx.bin(op, x, y);
                Ok(self.ve(e))
            }
        }
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> SR<V> {
        match (a, b) {
            (V::C(x), V::C(y)) => {
                let (x, y) = (*x, *y);
                let (sx, sy) = (sext(x, w), sext(y, w));
                let r = match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Slt => sx < sy,
                    Pred::Sle => sx <= sy,
                    Pred::Sgt => sx > sy,
                    Pred::Sge => sx >= sy,
                };
                Ok(V::C(r as u128))
            }
            (V::A(x), V::A(y)) => {
                let mut r = vec![];
                for (s, q) in x.iter().zip(y.iter()) {
                    r.push(self.icmp(p, w, s, q)?);
                }
                Ok(V::A(Rc::new(r)))
            }
            _ => {
                let x = self.ee(a, w)?;
                let y = self.ee(b, w)?;
                let c = &mut self.ctx;
                let e = match p {
                    Pred::Eq => c.eq(x, y),
                    Pred::Ne => {
                        let q = c.eq(x, y);
                        c.not1(q)
                    }
                    Pred::Ult => c.ult(x, y),
                    Pred::Ule => c.ule(x, y),
                    Pred::Ugt => c.ult(y, x),
                    Pred::Uge => c.ule(y, x),
                    Pred::Slt => c.slt(x, y),
                    Pred::Sle => c.sle(x, y),
                    Pred::Sgt => c.slt(y, x),
                    Pred::Sge => c.sle(y, x),
                };
                Ok(self.ve(e))
            }
        }
    }
    fn flatten(&mut self, v: &V, ty: &Ty) -> SR<(E, u32)> {
        match v {
            V::A(vs) => {
                let mut acc: Option<(E, u32)> = None;
                for (i, x) in vs.iter().enumerate() {
                    let (e, w) = self.flatten(x, ty.field(i))?;
                    acc = Some(match acc {
                        None => (e, w),
                        Some((l, lw)) => {
                            if lw + w > 128 {
                                return Err(Stop::Err("bitcast wider than 128 bits".into()));
                            }
                            (self.ctx.concat(e, l), lw + w)
                        }
                    });
                }
                acc.ok_or(Stop::Err("empty aggregate".into()))
            }
            _ => {
                let w = ty.bits();
                Ok((self.ee(v, w)?, w))
            }
        }
    }
    fn cast(&mut self, k: CastK, from: &Ty, to: &Ty, a: &V) -> SR<V> {
        if let (V::A(vs), Ty::Vect(_, ft), Ty::Vect(_, tt)) = (a, from, to) {
            if k != CastK::BitcastVec {
                let mut r = vec![];
                for x in vs.iter() {
                    r.push(self.cast(k, ft, tt, x)?);
                }
                return Ok(V::A(Rc::new(r)));
            }
        }
        let (fw, tw) = (from.bits(), to.bits());
        Ok(match k {
            CastK::Move => a.clone(),
            CastK::Trunc => match a {
                V::C(x) => V::C(x & mask(tw)),
                _ => {
                    let e = self.ee(a, fw)?;
                    let r = self.ctx.extract(e, 0, tw);
                    self.ve(r)
                }
            },
            CastK::ZExt => match a {
                V::C(_) => a.clone(),
                _ => {
                    let e = self.ee(a, fw)?;
                    let r = self.ctx.zext(e, tw);
                    self.ve(r)
                }
            },
            CastK::SExt => match a {
                V::C(x) => V::C(sext(*x, fw) as u128 & mask(tw)),
                _ => {
                    let e = self.ee(a, fw)?;
                    let r = self.ctx.sext(e, tw);
                    self.ve(r)
                }
            },
            CastK::BitcastVec => {
                let (e, w) = self.flatten(a, from)?;
                if to.is_agg() {
                    let n = to.nfields();
                    let ew = w / n as u32;
                    let mut r = vec![];
                    for i in 0..n {
                        let x = self.ctx.extract(e, i as u32 * ew, ew);
                        r.push(self.ve(x));
                    }
                    V::A(Rc::new(r))
                } else {
                    self.ve(e)
                }
            }
            CastK::FpTrunc | CastK::FpExt | CastK::SiToFp | CastK::UiToFp => {
                let op = match k {
                    CastK::FpTrunc => Op::FpTrunc,
                    CastK::FpExt => Op::FpExt,
                    CastK::SiToFp => Op::SiToFp,
                    _ => Op::UiToFp,
                };
                let e = self.ee(a, fw)?;
                let r = self.ctx.fpop(op, tw, e);
                self.ve(r)
            }
            CastK::FpToSi | CastK::FpToUi => match a {
                V::C(x) => {
                    let f = if fw == 32 { f32::from_bits(*x as u32) as f64 } else { f64::from_bits(*x as u64) };
                    if k == CastK::FpToSi {
                        V::C((f as i128) as u128 & mask(tw))
                    } else {
                        V::C((f as u128) & mask(tw))
                    }
                }
                _ => return Err(Stop::Err("float to integer of a symbolic value".into())),
            },
        })
    }
    fn agg_get(v: &V, path: &[u32]) -> SR<V> {
        let mut cur = v;
        for p in path {
            match cur {
                V::A(x) => cur = &x[*p as usize],
                _ => return Err(Stop::Err("extractvalue of a scalar".into())),
            }
        }
        Ok(cur.clone())
    }
    fn agg_set(v: &V, path: &[u32], nv: V, ty: &Ty) -> SR<V> {
        if path.is_empty() {
            return Ok(nv);
        }
        let mut x: Vec<V> = match v {
            V::A(x) => (**x).clone(),
            _ => vec![V::C(0); ty.nfields()],
        };
        let i = path[0] as usize;
        x[i] = Self::agg_set(&x[i], &path[1..], nv, ty.field(i))?;
        Ok(V::A(Rc::new(x)))
    }

    // ---------------------------------------------------------------- running

    pub fn trace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| f.f.name.clone()).collect()
    }

    pub fn violation(&mut self, st: &State, kind: &str, id: &str, model: &[u8]) {
        self.rep.bad += 1;
        let key = format!("{kind}:{id}");
        let n = self.viol_count.entry(key).or_insert(0);
        *n += 1;
        if *n <= 3 {
            let tr = self.trace(st);
            self.rep.viol.push(Violation { kind: kind.into(), id: id.into(), model: model[..st.nsym.min(model.len())].to_vec(), trace: tr });
        }
    }

    fn finish(&mut self, st: State, s: Stop) {
        self.rep.steps += st.steps;
        self.rep.max_steps = self.rep.max_steps.max(st.steps);
        self.rep.max_peak = self.rep.max_peak.max(st.heap_peak);
        match s {
            Stop::Done => {
                self.rep.done += 1;
                for c in st.covers.iter() {
                    *self.rep.covers.entry(c.clone()).or_insert(0) += 1;
                }
                let h = (self.rep.done.wrapping_mul(0x9E3779B97F4A7C15) ^ self.seed.wrapping_mul(0xD1B54A32D192ED03)) >> 33;
                if h % self.sample_mod == 0 {
                    let mut dg = String::new();
                    for (v, _) in &st.outs {
                        let x = match v {
                            V::C(k) => *k,
                            V::E(e) => self.ctx.eval(*e, &st.model),
                            V::A(_) => 0,
                        };
                        dg.push_str(&format!("{x:x},"));
                    }
                    let mut m = (*st.model).clone();
                    m.resize(st.nsym, 0);
                    self.rep.samples.push((m, dg));
                    if self.rep.samples.len() > 2 * self.max_samples {
                        let v = std::mem::take(&mut self.rep.samples);
                        self.rep.samples = v.into_iter().step_by(2).collect();
                        self.sample_mod *= 2;
                    }
                }
            }
            Stop::Pruned => self.rep.pruned += 1,
            Stop::Forked => unreachable!(),
            Stop::Bad(k, id) => {
                let m = st.model.clone();
                self.violation(&st, &k, &id, &m);
            }
            Stop::Err(e) => {
                let tr = st.frames.last().map(|f| f.f.name.clone()).unwrap_or_default();
                if std::env::var("SYMEX_TRACE_ERR").is_ok() {
                    eprintln!("engine: {e}\n  {}", self.trace(&st).join("\n  "));
                }
                *self.rep.errs.entry(format!("{e} [in {tr}]")).or_insert(0) += 1;
            }
        }
    }

    /// Explores everything in the work list. In breadth-first mode stops once `want` states are pending.
    pub fn explore(&mut self, want: Option<usize>) {
        self.bfs = want.is_some();
        loop {
            let st = if self.bfs { self.work.pop_front() } else { self.work.pop_back() };
            let Some(st) = st else { break };
            if std::time::Instant::now() > self.deadline || self.rep.viol.len() >= self.max_viol {
                self.rep.left += 1 + self.work.len() as u64;
                self.work.clear();
                break;
            }
            self.run(st);
            if let Some(w) = want {
                if self.work.len() >= w {
                    break;
                }
            }
        }
    }

    pub fn run(&mut self, mut st: State) {
        let pend = self.work.len();
        loop {
            st.steps += 1;
            if st.steps & 0xffff == 0 && std::time::Instant::now() > self.deadline {
                self.finish(st, Stop::Err("time limit reached".into()));
                return;
            }
            if st.steps > self.max_steps {
                self.finish(st, Stop::Bad("limit".into(), "step limit".into()));
                return;
            }
            match self.step(&mut st) {
                Ok(()) => {
                    if self.bfs && self.work.len() > pend {
                        self.work.push_back(st);
                        return;
                    }
                }
                Err(s) => {
                    self.finish(st, s);
                    return;
                }
            }
        }
    }

    fn jump(st: &mut State, to: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.bb;
        let blk = &fr.f.blocks[to as usize];
        match blk.phis.len() {
            0 => {}
            1 => {
                let p = &blk.phis[0];
                let o = &p.inc.iter().find(|x| x.0 == from).expect("phi").1;
                let v = match o {
                    O::R(r) => fr.regs[*r as usize].clone(),
                    O::K(v) => v.clone(),
                };
                fr.regs[p.d as usize] = v;
            }
            _ => {
                let mut vals = Vec::with_capacity(blk.phis.len());
                for p in &blk.phis {
                    let o = &p.inc.iter().find(|x| x.0 == from).expect("phi").1;
                    vals.push(match o {
                        O::R(r) => fr.regs[*r as usize].clone(),
                        O::K(v) => v.clone(),
                    });
                }
                for (p, v) in blk.phis.iter().zip(vals) {
                    fr.regs[p.d as usize] = v;
                }
            }
        }
        fr.bb = to;
        fr.pc = 0;
    }

    #[inline]
    fn get(st: &State, o: &O) -> V {
        match o {
            O::R(r) => st.frames[st.frames.len() - 1].regs[*r as usize].clone(),
            O::K(v) => v.clone(),
        }
    }
    #[inline]
    fn set(st: &mut State, d: u32, v: V) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.regs[d as usize] = v;
        fr.pc += 1;
    }
    fn advance(st: &mut State) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.pc += 1;
    }

    fn step(&mut self, st: &mut State) -> SR<()> {
        let fr = st.frames.last().unwrap();
        let f: &'static Func = fr.f;
        let ins = &f.blocks[fr.bb as usize].ins[fr.pc as usize];
        match ins {
            I::Bin { op, w, d, a, b } => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let v = self.bin(*op, *w, &x, &y)?;
                Self::set(st, *d, v);
            }
            I::ICmp { p, w, d, a, b } => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let v = self.icmp(*p, *w, &x, &y)?;
                Self::set(st, *d, v);
            }
            I::FCmp { code, w, d, a, b } => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let (x, y) = (self.ee(&x, *w)?, self.ee(&y, *w)?);
                let e = self.ctx.fcmp(*code, x, y);
                let v = self.ve(e);
                Self::set(st, *d, v);
            }
            I::FBin { op, w, d, a, b } => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let (V::C(x), V::C(y)) = (x, y) else { return Err(Stop::Err("symbolic floating-point arithmetic".into())) };
                let r = if *w == 32 {
                    let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    (match op {
                        'a' => x + y,
                        's' => x - y,
                        'm' => x * y,
                        'd' => x / y,
                        _ => x % y,
                    })
                    .to_bits() as u128
                } else {
                    let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                    (match op {
                        'a' => x + y,
                        's' => x - y,
                        'm' => x * y,
                        'd' => x / y,
                        _ => x % y,
                    })
                    .to_bits() as u128
                };
                Self::set(st, *d, V::C(r));
            }
            I::Cast { k, from, to, d, a } => {
                let x = Self::get(st, a);
                let v = self.cast(*k, from, to, &x)?;
                Self::set(st, *d, v);
            }
            I::Select { d, c, a, b, w, ptr } => {
                let cv = Self::get(st, c);
                let v = match cv {
                    V::C(k) => Self::get(st, if k == 1 { a } else { b }),
                    V::E(e) => {
                        let (x, y) = (Self::get(st, a), Self::get(st, b));
                        if x == y {
                            x
                        } else if *ptr {
                            if self.decide(st, e)? {
                                x
                            } else {
                                y
                            }
                        } else {
                            let (x, y) = (self.ee(&x, *w)?, self.ee(&y, *w)?);
                            let r = self.ctx.ite(e, x, y);
                            self.ve(r)
                        }
                    }
                    V::A(_) => return Err(Stop::Err("vector select".into())),
                };
                Self::set(st, *d, v);
            }
            I::Load { d, ty, p } => {
                let pv = Self::get(st, p);
                let v = match &pv {
                    V::C(a) => self.load(st, *a as u64, ty)?,
                    _ => self.load_sym(st, &pv, ty)?,
                };
                Self::set(st, *d, v);
            }
            I::Store { ty, v, p } => {
                let pv = Self::get(st, p);
                let a = self.concretize(st, &pv, 64)? as u64;
                let v = Self::get(st, v);
                self.store(st, a, ty, &v)?;
                Self::advance(st);
            }
            I::Alloca { d, size } => {
                let i = st.stack.len() as u64;
                st.stack.push(Rc::new(Obj::new(*size as usize)));
                Self::set(st, *d, V::C(((STACK_ID + i + 1) << 32) as u128));
            }
            I::Gep { d, base, off, idx } => {
                let mut acc = Self::get(st, base);
                let mut k = *off as u64;
                let mut sym: Option<E> = None;
                for (o, w, scale) in idx {
                    match Self::get(st, o) {
                        V::C(x) => k = k.wrapping_add((sext(x, *w) as i64).wrapping_mul(*scale) as u64),
                        V::E(e) => {
                            let c = &mut self.ctx;
                            let e = if *w < 64 { c.sext(e, 64) } else { c.extract(e, 0, 64) };
                            let s = c.c(*scale as u64 as u128, 64);
                            let e = c.mul(e, s);
                            sym = Some(match sym {
                                None => e,
                                Some(x) => c.add(x, e),
                            });
                        }
                        V::A(_) => return Err(Stop::Err("vector gep".into())),
                    }
                }
                if let V::C(b) = &acc {
                    acc = V::C((*b as u64).wrapping_add(k) as u128);
                } else {
                    let b = self.ee(&acc, 64)?;
                    let kk = self.ctx.c(k as u128, 64);
                    let e = self.ctx.add(b, kk);
                    acc = self.ve(e);
                }
                if let Some(s) = sym {
                    // a symbolic index into anything but a constant table forks over its values
                    let table = if let V::C(b) = &acc { self.is_table(*b as u64) } else { false };
                    if table {
                        let b = self.ee(&acc, 64)?;
                        let e = self.ctx.add(b, s);
                        acc = self.ve(e);
                    } else {
                        let sv = V::E(s);
                        let sc = self.concretize(st, &sv, 64)? as u64;
                        acc = match &acc {
                            V::C(b) => V::C((*b as u64).wrapping_add(sc) as u128),
                            _ => {
                                let b = self.ee(&acc, 64)?;
                                let kk = self.ctx.c(sc as u128, 64);
                                let e = self.ctx.add(b, kk);
                                self.ve(e)
                            }
                        };
                    }
                }
                Self::set(st, *d, acc);
            }
            I::Call { d, ret, callee, args, normal } => return self.call(st, *d, ret, callee, args, *normal),
            I::Extract { d, a, path } => {
                let x = Self::get(st, a);
                let v = Self::agg_get(&x, path)?;
                Self::set(st, *d, v);
            }
            I::Insert { d, a, v, path, ty } => {
                let x = Self::get(st, a);
                let nv = Self::get(st, v);
                let r = Self::agg_set(&x, path, nv, ty)?;
                Self::set(st, *d, r);
            }
            I::ExtractElem { d, a, i } => {
                let x = Self::get(st, a);
                let iv = Self::get(st, i);
                let k = self.concretize(st, &iv, 64)?;
                let v = Self::agg_get(&x, &[k as u32])?;
                Self::set(st, *d, v);
            }
            I::InsertElem { d, a, v, i, n } => {
                let x = Self::get(st, a);
                let nv = Self::get(st, v);
                let iv = Self::get(st, i);
                let k = self.concretize(st, &iv, 64)? as usize;
                let mut xs: Vec<V> = match &x {
                    V::A(x) => (**x).clone(),
                    _ => vec![V::C(0); *n],
                };
                xs[k] = nv;
                Self::set(st, *d, V::A(Rc::new(xs)));
            }
            I::Shuffle { d, a, b, n, m } => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let pick = |v: &V, i: usize| match v {
                    V::A(x) => x[i].clone(),
                    _ => V::C(0),
                };
                let r = m
                    .iter()
                    .map(|k| match k {
                        Some(k) if (*k as usize) < *n => pick(&x, *k as usize),
                        Some(k) => pick(&y, *k as usize - *n),
                        None => V::C(0),
                    })
                    .collect();
                Self::set(st, *d, V::A(Rc::new(r)));
            }
            I::AtomicRmw { d, op, w, p, v } => {
                let pv = Self::get(st, p);
                let a = self.concretize(st, &pv, 64)? as u64;
                let ty = Ty::Int(*w);
                let old = self.load(st, a, &ty)?;
                let x = Self::get(st, v);
                let nv = match op.as_str() {
                    "add" => self.bin(Op::Add, *w, &old, &x)?,
                    "sub" => self.bin(Op::Sub, *w, &old, &x)?,
                    "and" => self.bin(Op::And, *w, &old, &x)?,
                    "or" => self.bin(Op::Or, *w, &old, &x)?,
                    "xchg" => x,
                    _ => return Err(Stop::Err(format!("atomicrmw {op}"))),
                };
                self.store(st, a, &ty, &nv)?;
                Self::set(st, *d, old);
            }
            I::CmpXchg { d, w, p, c, n } => {
                let pv = Self::get(st, p);
                let a = self.concretize(st, &pv, 64)? as u64;
                let ty = Ty::Int(*w);
                let old = self.load(st, a, &ty)?;
                let cv = Self::get(st, c);
                let eq = self.icmp(Pred::Eq, *w, &old, &cv)?;
                let ok = match eq {
                    V::C(k) => k == 1,
                    V::E(e) => self.decide(st, e)?,
                    _ => false,
                };
                if ok {
                    let nv = Self::get(st, n);
                    self.store(st, a, &ty, &nv)?;
                }
                Self::set(st, *d, V::A(Rc::new(vec![old, V::C(ok as u128)])));
            }
            I::Nop => Self::advance(st),
            I::Br(t) => Self::jump(st, *t),
            I::CondBr { c, t, f } => {
                let b = match Self::get(st, c) {
                    V::C(k) => k == 1,
                    V::E(e) => self.decide(st, e)?,
                    V::A(_) => return Err(Stop::Err("branch on an aggregate".into())),
                };
                Self::jump(st, if b { *t } else { *f });
            }
            I::Switch { v, w, def, cases } => {
                let x = Self::get(st, v);
                match x {
                    V::C(k) => {
                        let t = cases.iter().find(|c| c.0 == k).map_or(*def, |c| c.1);
                        Self::jump(st, t);
                    }
                    V::E(e) => {
                        // one fork per target block: the condition of a target is the disjunction of its cases
                        let val = self.ctx.eval(e, &st.model);
                        let tgt = cases.iter().find(|c| c.0 == val).map_or(*def, |c| c.1);
                        let mut cond: Option<E> = None;
                        if tgt == *def {
                            // not any of the cases that go elsewhere
                            for (k, t) in cases {
                                if *t != *def {
                                    let kk = self.ctx.c(*k, *w);
                                    let q = self.ctx.eq(e, kk);
                                    let q = self.ctx.not1(q);
                                    cond = Some(match cond {
                                        None => q,
                                        Some(c) => self.ctx.and(c, q),
                                    });
                                }
                            }
                        } else {
                            for (k, t) in cases {
                                if *t == tgt {
                                    let kk = self.ctx.c(*k, *w);
                                    let q = self.ctx.eq(e, kk);
                                    cond = Some(match cond {
                                        None => q,
                                        Some(c) => self.ctx.or(c, q),
                                    });
                                }
                            }
                        }
                        if let Some(c) = cond {
                            if !self.decide(st, c)? {
                                return Err(Stop::Err("switch".into()));
                            }
                        }
                        // the phis of the target may depend on the case only through the block, not the value
                        Self::jump(st, tgt);
                    }
                    V::A(_) => return Err(Stop::Err("switch on an aggregate".into())),
                }
            }
            I::Ret(o) => {
                let v = o.as_ref().map(|o| Self::get(st, o));
                let fr = st.frames.pop().unwrap();
                st.stack.truncate(fr.stack_base as usize);
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                Self::done_call(st, fr.ret, v.unwrap_or(V::C(0)), fr.normal);
            }
            I::Unreachable => return Err(Stop::Bad("panic".into(), "unreachable code reached".into())),
            I::Unsupported(s) => return Err(Stop::Err(format!("unsupported: {s}"))),
        }
        Ok(())
    }

    fn is_table(&mut self, addr: u64) -> bool {
        let id = (addr >> 32).wrapping_sub(1);
        if id != 0 || gl_of(addr).0 as usize >= self.m.globals.len() {
            return false;
        }
        let o = self.glob(gl_of(addr).0);
        o.ro && o.bytes.len() <= 4096
    }

    /// Load at a symbolic address: a table lookup when it stays within a constant, otherwise a fork.
    fn load_sym(&mut self, st: &mut State, pv: &V, ty: &Ty) -> SR<V> {
        let V::E(e) = pv else { return Err(Stop::Err("pointer".into())) };
        let e = *e;
        let sup = *self.ctx.sup(e);
        if let (Some(b), false) = (sup_single(&sup), ty.is_agg()) {
            let a0 = self.ctx.eval(e, &st.model) as u64;
            if self.is_table(a0) {
                // value for each byte value in the domain, then an if-then-else over runs of equal values
                let d = st.dom[b];
                let mut m = vec![0u8; b + 1];
                let mut runs: Vec<(usize, u128)> = vec![]; // (last byte value of the run, loaded value)
                for v in 0..256usize {
                    if d[v / 64] >> (v % 64) & 1 == 0 {
                        continue;
                    }
                    m[b] = v as u8;
                    let a = self.ctx.eval(e, &m) as u64;
                    if a >> 32 != a0 >> 32 || gl_of(a).0 != gl_of(a0).0 {
                        return Err(Stop::Bad("memory".into(), "table index out of range".into()));
                    }
                    let V::C(x) = self.load(st, a, ty)? else { return Err(Stop::Err("symbolic table".into())) };
                    match runs.last_mut() {
                        Some(r) if r.1 == x => r.0 = v,
                        _ => runs.push((v, x)),
                    }
                }
                let w = ty.bits();
                let s = self.ctx.sym(b);
                let mut acc = self.ctx.c(runs.last().unwrap().1, w);
                for (v, x) in runs.iter().rev().skip(1) {
                    let k = self.ctx.c(*v as u128, 8);
                    let c = self.ctx.ule(s, k);
                    let xe = self.ctx.c(*x, w);
                    acc = self.ctx.ite(c, xe, acc);
                }
                return Ok(self.ve(acc));
            }
        }
        let a = self.concretize(st, pv, 64)? as u64;
        self.load(st, a, ty)
    }

    // ---------------------------------------------------------------- calls

    fn classify(&mut self, i: u32) -> Bi {
        if let Some(b) = self.bi[i as usize] {
            return b;
        }
        let n = self.m.funcs[i as usize].name.as_str();
        let has_body = self.m.funcs[i as usize].body.is_some();
        let b = match n {
            "malloc" | "__rust_alloc" => Bi::Malloc,
            "calloc" => Bi::Calloc,
            "realloc" => Bi::Realloc,
            "free" => Bi::Free,
            "posix_memalign" => Bi::PosixMemalign,
            "memcpy" | "memmove" => Bi::Memcpy,
            "memset" => Bi::Memset,
            "bcmp" => Bi::Bcmp,
            "memcmp" => Bi::Memcmp,
            "memchr" => Bi::Memchr,
            "strlen" => Bi::Strlen,
            "getrandom" => Bi::Getrandom,
            "abort" | "llvm.trap" | "_exit" | "exit" => Bi::Abort,
            "sym_bytes" => Bi::SymBytes,
            "sym_assume" => Bi::SymAssume,
            "sym_assert" => Bi::SymAssert,
            "sym_fail" => Bi::SymFail,
            "sym_cover" => Bi::SymCover,
            "sym_note" => Bi::SymNote,
            "sym_out" => Bi::SymOut,
            "sym_stub" => Bi::SymStub,
            "sym_limit" => Bi::SymLimit,
            "sym_concretize" => Bi::SymConc,
            "sym_is_engine" => Bi::SymIsEngine,
            "sym_ite" => Bi::SymIte,
            _ if n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") => Bi::Memcpy,
            _ if n.starts_with("llvm.memset") => Bi::Memset,
            _ if n.starts_with("llvm.") => Bi::Intr,
            _ if n.contains("4core9panicking") || n.contains("18handle_alloc_error") || n.contains("17capacity_overflow") || n.contains("17rust_begin_unwind") => {
                Bi::PanicFn
            }
            _ if n.contains("4core3fmt5write") => Bi::FmtWrite,
            _ if has_body && n.starts_with("_RN") && n.ends_with("4core3str8converts9from_utf8") => {
                self.rep.funcs.insert(n.to_string());
                Bi::FromUtf8
            }
            _ if n.contains("3sip") && n.contains("5write") && n.contains("6Hasher") => Bi::HashWrite,
            _ if has_body => Bi::User,
            _ => Bi::Unknown,
        };
        self.bi[i as usize] = Some(b);
        if b == Bi::User {
            self.rep.funcs.insert(n.to_string());
        }
        b
    }

    fn done_call(st: &mut State, d: Option<u32>, v: V, normal: Option<u32>) {
        if let Some(d) = d {
            let fr = Rc::make_mut(st.frames.last_mut().unwrap());
            fr.regs[d as usize] = v;
        }
        match normal {
            Some(n) => Self::jump(st, n),
            None => Self::advance(st),
        }
    }

    fn cstr(&mut self, st: &State, addr: u64, n: usize) -> SR<String> {
        let (o, off) = self.obj(st, addr)?;
        if off + n > o.bytes.len() {
            return Err(Stop::Err("bad string".into()));
        }
        Ok(String::from_utf8_lossy(&o.bytes[off..off + n]).to_string())
    }

    fn call(&mut self, st: &mut State, d: Option<u32>, ret: &'static Ty, callee: &Callee, args: &'static [(O, Ty)], normal: Option<u32>) -> SR<()> {
        let fi = match callee {
            Callee::Direct(i) => *i,
            Callee::Indirect(o) => {
                let v = Self::get(st, o);
                let a = self.concretize(st, &v, 64)? as u64;
                if a < FN_TAG || ((a & !FN_TAG) >> 4) as usize >= self.m.funcs.len() {
                    return Err(Stop::Bad("memory".into(), "call through an invalid pointer".into()));
                }
                ((a & !FN_TAG) >> 4) as u32
            }
        };
        let mut b = self.classify(fi);
        match b {
            Bi::FmtWrite if st.flags & STUB_FMT == 0 => b = Bi::User,
            Bi::FromUtf8 if st.flags & SUM_UTF8 == 0 || args.len() != 3 || *ret != Ty::Void => b = Bi::User,
            Bi::HashWrite if st.flags & STUB_HASH == 0 => b = Bi::User,
            _ => {}
        }
        let arg = |st: &State, i: usize| Self::get(st, &args[i].0);
        macro_rules! conc {
            ($i:expr) => {{
                let v = arg(st, $i);
                self.concretize(st, &v, args[$i].1.bits())? as u64
            }};
        }
        let mut rv = V::C(0);
        match b {
            Bi::User => {
                let Some(f) = self.func(fi) else {
                    return Err(Stop::Err(format!("no body for {}", self.m.funcs[fi as usize].name)));
                };
                if st.frames.len() > 600 {
                    return Err(Stop::Bad("limit".into(), "call depth".into()));
                }
                let mut regs = vec![V::C(0); f.nregs];
                for (i, a) in args.iter().enumerate().take(f.nargs) {
                    regs[i] = Self::get(st, &a.0);
                }
                let base = st.stack.len() as u32;
                st.frames.push(Rc::new(Frame { f, fi, regs, bb: 0, pc: 0, ret: d, normal, stack_base: base }));
                if self.trace_fn {
                    eprintln!("{}{}", " ".repeat(st.frames.len()), f.name);
                }
                return Ok(());
            }
            Bi::Malloc | Bi::Calloc => {
                let v = arg(st, 0);
                let mut n = if b == Bi::Malloc { self.size_bound(st, &v, args[0].1.bits())? } else { conc!(0) };
                if b == Bi::Calloc {
                    n = n.saturating_mul(conc!(1));
                }
                if n > st.max_alloc {
                    return Err(Stop::Bad("limit".into(), "oversized allocation".into()));
                }
                rv = V::C(self.heap_new(st, n) as u128);
            }
            Bi::Realloc => {
                let p = conc!(0);
                let v = arg(st, 1);
                let n = self.size_bound(st, &v, args[1].1.bits())?;
                if n > st.max_alloc {
                    return Err(Stop::Bad("limit".into(), "oversized allocation".into()));
                }
                let q = self.heap_new(st, n);
                if p != 0 {
                    let (o, _) = self.obj(st, p)?;
                    let l = (o.bytes.len() as u64).min(n) as usize;
                    drop(o);
                    self.copy(st, q, p, l)?;
                    self.heap_free(st, p)?;
                }
                rv = V::C(q as u128);
            }
            Bi::Free => {
                let p = conc!(0);
                self.heap_free(st, p)?;
            }
            Bi::PosixMemalign => {
                let out = conc!(0);
                let v = arg(st, 2);
                let n = self.size_bound(st, &v, args[2].1.bits())?;
                if n > st.max_alloc {
                    return Err(Stop::Bad("limit".into(), "oversized allocation".into()));
                }
                let q = self.heap_new(st, n);
                self.store(st, out, &Ty::Ptr, &V::C(q as u128))?;
            }
            Bi::Memcpy => {
                let n = conc!(2);
                let (dst, src) = if n == 0 { (0, 0) } else { (conc!(0), conc!(1)) };
                self.copy(st, dst, src, n as usize)?;
                rv = arg(st, 0);
            }
            Bi::Memset => {
                let n = conc!(2) as usize;
                let v = arg(st, 1);
                if n > 0 {
                    let dst = conc!(0);
                    match v {
                        V::C(k) => {
                            let (o, off) = self.obj_mut(st, dst, n)?;
                            for i in 0..n {
                                o.set_c(off + i, k as u8);
                            }
                        }
                        V::E(e) => {
                            let e = self.ctx.extract(e, 0, 8);
                            let (o, off) = self.obj_mut(st, dst, n)?;
                            for i in 0..n {
                                o.set_e(off + i, e);
                            }
                        }
                        _ => return Err(Stop::Err("memset".into())),
                    }
                }
                rv = arg(st, 0);
            }
            Bi::Bcmp | Bi::Memcmp => {
                let n = conc!(2) as usize;
                if n > 0 {
                    let (pa, pb) = (conc!(0), conc!(1));
                    let (oa, fa) = self.obj(st, pa)?;
                    let (ob, fb) = self.obj(st, pb)?;
                    if fa + n > oa.bytes.len() || fb + n > ob.bytes.len() {
                        return Err(Stop::Bad("memory".into(), "comparison out of bounds".into()));
                    }
                    let w = ret.bits();
                    if b == Bi::Bcmp {
                        let mut acc = self.ctx.c(1, 1);
                        for i in 0..n {
                            let q = match (oa.get(fa + i), ob.get(fb + i)) {
                                (Ok(x), Ok(y)) => {
                                    if x == y {
                                        continue;
                                    }
                                    self.ctx.c(0, 1)
                                }
                                (x, y) => {
                                    let x = x.map_or_else(|e| e, |c| self.ctx.c(c as u128, 8));
                                    let y = y.map_or_else(|e| e, |c| self.ctx.c(c as u128, 8));
                                    self.ctx.eq(x, y)
                                }
                            };
                            acc = self.ctx.and(q, acc);
                            if self.ctx.as_const(acc) == Some(0) {
                                break;
                            }
                        }
                        let ne = self.ctx.not1(acc);
                        let r = self.ctx.zext(ne, w);
                        rv = self.ve(r);
                    } else {
                        let mut acc = self.ctx.c(0, w);
                        let (neg, pos) = (self.ctx.c(mask(w), w), self.ctx.c(1, w));
                        for i in (0..n).rev() {
                            match (oa.get(fa + i), ob.get(fb + i)) {
                                (Ok(x), Ok(y)) => {
                                    if x != y {
                                        acc = if x < y { neg } else { pos };
                                    }
                                }
                                (x, y) => {
                                    let x = x.map_or_else(|e| e, |c| self.ctx.c(c as u128, 8));
                                    let y = y.map_or_else(|e| e, |c| self.ctx.c(c as u128, 8));
                                    let q = self.ctx.eq(x, y);
                                    let l = self.ctx.ult(x, y);
                                    let t = self.ctx.ite(l, neg, pos);
                                    acc = self.ctx.ite(q, acc, t);
                                }
                            }
                        }
                        rv = self.ve(acc);
                    }
                }
            }
            Bi::Memchr => return Err(Stop::Err("memchr".into())),
            Bi::Strlen => {
                let p = conc!(0);
                let (o, off) = self.obj(st, p)?;
                let n = o.bytes[off..].iter().position(|x| *x == 0).ok_or(Stop::Err("strlen".into()))?;
                rv = V::C(n as u128);
            }
            Bi::Getrandom => {
                let p = conc!(0);
                let n = conc!(1) as usize;
                let (o, off) = self.obj_mut(st, p, n)?;
                for i in 0..n {
                    o.set_c(off + i, (i as u8).wrapping_mul(37).wrapping_add(11));
                }
                rv = V::C(n as u128);
            }
            Bi::Abort => return Err(Stop::Bad("panic".into(), "abort".into())),
            Bi::PanicFn => {
                let n = self.m.funcs[fi as usize].name.clone();
                let from = st.frames.last().unwrap().f.name.clone();
                let short: String = n.rsplit("9panicking").next().unwrap_or("").chars().take(60).collect();
                let _ = from;
                return Err(Stop::Bad("panic".into(), format!("panic {short}")));
            }
            Bi::FmtWrite | Bi::HashWrite => {}
            Bi::FromUtf8 => {
                let out = conc!(0);
                let n = conc!(2) as usize;
                let p = conc!(1);
                let (mut valid, mut upto, mut elen) = (1, 0u128, 0u128);
                let mut have = false;
                if n > 0 {
                    let (o, off) = self.obj(st, p)?;
                    if off + n > o.bytes.len() {
                        return Err(Stop::Bad("memory".into(), "from_utf8 out of bounds".into()));
                    }
                    let bytes: Vec<Result<u8, E>> = (0..n).map(|i| o.get(off + i)).collect();
                    if bytes.iter().all(|b| b.is_ok()) {
                        let v: Vec<u8> = bytes.iter().map(|b| *b.as_ref().unwrap_or(&0)).collect();
                        if let Err(e) = std::str::from_utf8(&v) {
                            valid = 0;
                            upto = e.valid_up_to() as u128;
                            elen = e.error_len().map_or(0, |l| 1 | (l as u128) << 8);
                        }
                    } else {
                        have = true;
                        let mut a = self.ctx.c(1, 1);
                        for b in bytes.iter().rev() {
                            if let Err(e) = b {
                                let k = self.ctx.c(0x80, 8);
                                let q = self.ctx.ult(*e, k);
                                a = self.ctx.and(q, a);
                            } else if matches!(b, Ok(x) if *x >= 0x80) {
                                a = self.ctx.c(0, 1);
                            }
                        }
                        if !self.decide(st, a)? {
                            let (ok, u, l) = self.utf8(&bytes);
                            if self.decide(st, ok)? {
                            } else {
                                valid = 0;
                                let u = self.ve(u);
                                let l = self.ve(l);
                                self.store(st, out + 8, &Ty::Int(64), &u)?;
                                self.store(st, out + 16, &Ty::Int(16), &l)?;
                            }
                        }
                    }
                }
                self.store(st, out, &Ty::Int(64), &V::C(1 - valid as u128))?;
                if valid == 1 {
                    self.store(st, out + 8, &Ty::Ptr, &V::C(p as u128))?;
                    self.store(st, out + 16, &Ty::Int(64), &V::C(n as u128))?;
                } else if !have {
                    self.store(st, out + 8, &Ty::Int(64), &V::C(upto))?;
                    self.store(st, out + 16, &Ty::Int(16), &V::C(elen))?;
                }
            }
            Bi::SymBytes => {
                let p = conc!(0);
                let n = conc!(1) as usize;
                let s0 = st.nsym;
                if s0 + n > MAXSYM {
                    return Err(Stop::Err("too many symbolic bytes".into()));
                }
                st.nsym += n;
                if st.model.len() < st.nsym {
                    Rc::make_mut(&mut st.model).resize(st.nsym, 0);
                }
                Rc::make_mut(&mut st.dom).resize(st.nsym, [u64::MAX; 4]);
                let es: Vec<E> = (0..n).map(|i| self.ctx.sym(s0 + i)).collect();
                if st.flags & 0x8000_0000 != 0 {
                    // concrete run: the bytes come from the preset model
                    let m = st.model.clone();
                    let (o, off) = self.obj_mut(st, p, n)?;
                    for i in 0..n {
                        o.set_c(off + i, m[s0 + i]);
                    }
                } else {
                    let (o, off) = self.obj_mut(st, p, n)?;
                    for i in 0..n {
                        o.set_e(off + i, es[i]);
                    }
                }
            }
            Bi::SymAssume => match arg(st, 0) {
                V::C(k) => {
                    if k & 1 == 0 {
                        return Err(Stop::Pruned);
                    }
                }
                V::E(e) => {
                    let e = self.truthy(e);
                    match self.feasible(st, e)? {
                        None => return Err(Stop::Pruned),
                        Some(m) => {
                            st.model = m;
                            self.add(st, e);
                        }
                    }
                }
                _ => return Err(Stop::Err("assume".into())),
            },
            Bi::SymAssert => {
                self.rep.asserts += 1;
                let p = conc!(1);
                let n = conc!(2) as usize;
                match arg(st, 0) {
                    V::C(k) => {
                        if k & 1 == 0 {
                            let id = self.cstr(st, p, n)?;
                            return Err(Stop::Bad("assert".into(), id));
                        }
                    }
                    V::E(e) => {
                        let e = self.truthy(e);
                        let ne = self.ctx.not1(e);
                        if let Some(m) = self.feasible(st, ne)? {
                            let id = self.cstr(st, p, n)?;
                            self.violation(st, "assert", &id, &m);
                            match self.feasible(st, e)? {
                                None => return Err(Stop::Pruned),
                                Some(m) => {
                                    st.model = m;
                                    self.add(st, e);
                                }
                            }
                        }
                    }
                    _ => return Err(Stop::Err("assert".into())),
                }
            }
            Bi::SymFail => {
                self.rep.asserts += 1;
                let p = conc!(0);
                let n = conc!(1) as usize;
                let id = self.cstr(st, p, n)?;
                return Err(Stop::Bad("assert".into(), id));
            }
            Bi::SymNote => {}
            Bi::SymCover => {
                let p = conc!(0);
                let n = conc!(1) as usize;
                let id = self.cstr(st, p, n)?;
                Rc::make_mut(&mut st.covers).insert(id);
            }
            Bi::SymOut => {
                let v = arg(st, 0);
                st.outs.push((v, 64));
            }
            Bi::SymStub => {
                let f = conc!(0) as u32;
                st.flags = (st.flags & 0x8000_0000) | f;
            }
            Bi::SymLimit => {
                st.max_alloc = conc!(0);
            }
            Bi::SymConc => {
                let v = conc!(0);
                rv = V::C(v as u128);
            }
            Bi::SymIsEngine => rv = V::C(1),
            Bi::SymIte => {
                // sym_ite(cond: u64 (0/1), a: u64, b: u64) -> u64 without forking
                let (x, y) = (arg(st, 1), arg(st, 2));
                rv = match arg(st, 0) {
                    V::C(k) => {
                        if k & 1 == 1 {
                            x
                        } else {
                            y
                        }
                    }
                    V::E(e) => {
                        let c = self.truthy(e);
                        let (x, y) = (self.ee(&x, 64)?, self.ee(&y, 64)?);
                        let r = self.ctx.ite(c, x, y);
                        self.ve(r)
                    }
                    _ => return Err(Stop::Err("ite".into())),
                };
            }
            Bi::Intr => {
                let name: &'static str = {
                    let m: &'static Module = self.m;
                    &m.funcs[fi as usize].name
                };
                rv = self.intrinsic(st, name, ret, args)?;
            }
            Bi::Unknown | Bi::None => {
                return Err(Stop::Err(format!("call of external function {}", self.m.funcs[fi as usize].name)));
            }
        }
        Self::done_call(st, d, rv, normal);
        Ok(())
    }

    /// bit 0 of the argument as a condition
    fn truthy(&mut self, e: E) -> E {
        self.ctx.extract(e, 0, 1)
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, ret: &Ty, args: &[(O, Ty)]) -> SR<V> {
        let n = &name[5..];
        let a: Vec<V> = args.iter().map(|x| Self::get(st, &x.0)).collect();
        let w = args.first().map_or(0, |x| match &x.1 {
            Ty::Vect(_, t) => t.bits(),
            t => t.bits(),
        });
        let base = n.split('.').next().unwrap_or("");
        Ok(match base {
            "umin" | "umax" | "smin" | "smax" => {
                let p = match base {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.icmp(p, w, &a[0], &a[1])?;
                match c {
                    V::C(k) => {
                        if k == 1 {
                            a[0].clone()
                        } else {
                            a[1].clone()
                        }
                    }
                    V::E(c) => {
                        let (x, y) = (self.ee(&a[0], w)?, self.ee(&a[1], w)?);
                        let r = self.ctx.ite(c, x, y);
                        self.ve(r)
                    }
                    _ => return Err(Stop::Err(name.into())),
                }
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let signed = base.starts_with('s');
                let op = match &base[1..] {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Mul,
                };
                let kind = n.split('.').nth(1).unwrap_or("");
                let r = self.bin(op, w, &a[0], &a[1])?;
                // overflow bit
                let o = if let (V::C(x), V::C(y)) = (&a[0], &a[1]) {
                    let ov = if signed {
                        let (x, y) = (sext(*x, w), sext(*y, w));
                        let t = match op {
                            Op::Add => x.checked_add(y),
                            Op::Sub => x.checked_sub(y),
                            _ => x.checked_mul(y),
                        };
                        t.map_or(true, |t| sext(t as u128 & mask(w), w) != t)
                    } else {
                        let t = match op {
                            Op::Add => x.checked_add(*y),
                            Op::Sub => x.checked_sub(*y),
                            _ => x.checked_mul(*y),
                        };
                        t.map_or(true, |t| t > mask(w))
                    };
                    V::C(ov as u128)
                } else {
                    let (x, y) = (self.ee(&a[0], w)?, self.ee(&a[1], w)?);
                    let re = self.ee(&r, w)?;
                    let c = &mut self.ctx;
                    let e = match (signed, op) {
                        (false, Op::Add) => c.ult(re, x),
                        (false, Op::Sub) => c.ult(x, y),
                        (_, Op::Mul) => {
                            if w > 64 {
                                return Err(Stop::Err("wide multiplication".into()));
                            }
                            let (x2, y2) = if signed { (c.sext(x, 2 * w), c.sext(y, 2 * w)) } else { (c.zext(x, 2 * w), c.zext(y, 2 * w)) };
                            let p = c.mul(x2, y2);
                            let q = if signed { c.sext(re, 2 * w) } else { c.zext(re, 2 * w) };
                            let e = c.eq(p, q);
                            c.not1(e)
                        }
                        (true, Op::Add) => {
                            // same signs in, different sign out
                            let (sx, sy, sr) = (c.extract(x, w - 1, 1), c.extract(y, w - 1, 1), c.extract(re, w - 1, 1));
                            let p = c.eq(sx, sy);
                            let q = c.xor(sx, sr);
                            c.and(p, q)
                        }
                        _ => {
                            let (sx, sy, sr) = (c.extract(x, w - 1, 1), c.extract(y, w - 1, 1), c.extract(re, w - 1, 1));
                            let p = c.xor(sx, sy);
                            let q = c.xor(sx, sr);
                            c.and(p, q)
                        }
                    };
                    self.ve(e)
                };
                if kind == "with" {
                    V::A(Rc::new(vec![r, o]))
                } else if kind == "sat" && !signed {
                    let lim = if op == Op::Sub { 0 } else { mask(w) };
                    match o {
                        V::C(1) => V::C(lim),
                        V::C(_) => r,
                        V::E(c) => {
                            let l = self.ctx.c(lim, w);
                            let re = self.ee(&r, w)?;
                            let x = self.ctx.ite(c, l, re);
                            self.ve(x)
                        }
                        _ => return Err(Stop::Err(name.into())),
                    }
                } else {
                    return Err(Stop::Err(format!("intrinsic {name}")));
                }
            }
            "cttz" | "ctlz" | "ctpop" => match &a[0] {
                V::C(x) => V::C(match base {
                    "cttz" => {
                        if *x == 0 {
                            w as u128
                        } else {
                            x.trailing_zeros() as u128
                        }
                    }
                    "ctlz" => (x.leading_zeros() - (128 - w)) as u128,
                    _ => x.count_ones() as u128,
                }),
                V::E(e) => {
                    let e = *e;
                    let c = &mut self.ctx;
                    let mut acc = if base == "ctpop" { c.c(0, w) } else { c.c(w as u128, w) };
                    for i in 0..w {
                        // last assignment wins: scan so that the deciding bit comes last
                        let bit = if base == "cttz" { w - 1 - i } else { i };
                        let x = c.extract(e, bit, 1);
                        if base == "ctpop" {
                            let z = c.zext(x, w);
                            acc = c.add(acc, z);
                        } else {
                            let v = if base == "cttz" { bit } else { w - 1 - bit };
                            let k = c.c(v as u128, w);
                            acc = c.ite(x, k, acc);
                        }
                    }
                    self.ve(acc)
                }
                _ => return Err(Stop::Err(name.into())),
            },
            "bswap" => {
                let e = self.ee(&a[0], w)?;
                let mut acc: Option<E> = None;
                for i in 0..w / 8 {
                    let b = self.ctx.extract(e, i * 8, 8);
                    acc = Some(match acc {
                        None => b,
                        Some(h) => self.ctx.concat(h, b),
                    });
                }
                let r = acc.unwrap();
                self.ve(r)
            }
            "bitreverse" => {
                let e = self.ee(&a[0], w)?;
                let mut acc: Option<E> = None;
                for i in 0..w {
                    let b = self.ctx.extract(e, i, 1);
                    acc = Some(match acc {
                        None => b,
                        Some(h) => self.ctx.concat(h, b),
                    });
                }
                let r = acc.unwrap();
                self.ve(r)
            }
            "fshl" | "fshr" => {
                let k = (self.concretize(st, &a[2].clone(), w)? % w as u128) as u32;
                let (h, l) = (self.ee(&a[0], w)?, self.ee(&a[1], w)?);
                // take w bits out of h:l
                let low = if base == "fshl" { w - k } else { k }; // number of bits dropped from the right
                let r = if low == w {
                    h
                } else if low == 0 {
                    if base == "fshl" { h } else { l }
                } else {
                    let hp = self.ctx.extract(h, 0, low);
                    let lp = self.ctx.extract(l, low, w - low);
                    self.ctx.concat(hp, lp)
                };
                self.ve(r)
            }
            "abs" => match &a[0] {
                V::C(x) => V::C((sext(*x, w).wrapping_abs() as u128) & mask(w)),
                _ => {
                    let e = self.ee(&a[0], w)?;
                    let z = self.ctx.c(0, w);
                    let neg = self.ctx.sub(z, e);
                    let s = self.ctx.slt(e, z);
                    let r = self.ctx.ite(s, neg, e);
                    self.ve(r)
                }
            },
            "ucmp" | "scmp" => {
                let rw = ret.bits();
                let p = if base == "ucmp" { Pred::Ult } else { Pred::Slt };
                let lt = self.icmp(p, w, &a[0], &a[1])?;
                let eq = self.icmp(Pred::Eq, w, &a[0], &a[1])?;
                let lt = self.ee(&lt, 1)?;
                let eq = self.ee(&eq, 1)?;
                let (m1, z, o) = (self.ctx.c(mask(rw), rw), self.ctx.c(0, rw), self.ctx.c(1, rw));
                let t = self.ctx.ite(eq, z, o);
                let r = self.ctx.ite(lt, m1, t);
                self.ve(r)
            }
            "expect" | "ssa" | "launder" | "strip" => a[0].clone(),
            "is" if n.starts_with("is.constant") => V::C(0),
            "threadlocal" => a[0].clone(),
            "x86" if n == "x86.sse2.pause" => V::C(0),
            "load" if n.starts_with("load.relative") => {
                let p = self.concretize(st, &a[0].clone(), 64)? as u64;
                let o = self.concretize(st, &a[1].clone(), args[1].1.bits())? as u64;
                let V::C(v) = self.load(st, p.wrapping_add(o), &Ty::Int(32))? else { return Err(Stop::Err("load.relative".into())) };
                V::C(p.wrapping_add(sext(v, 32) as u64) as u128)
            }
            "vector" if n.starts_with("vector.reduce.") => {
                let V::A(xs) = &a[0] else { return Err(Stop::Err(name.into())) };
                let op = match n.split('.').nth(2).unwrap_or("") {
                    "or" => Op::Or,
                    "and" => Op::And,
                    "add" => Op::Add,
                    "xor" => Op::Xor,
                    _ => return Err(Stop::Err(format!("intrinsic {name}"))),
                };
                let mut acc = xs[0].clone();
                for x in xs[1..].iter() {
                    acc = self.bin(op, w, &acc, x)?;
                }
                acc
            }
            _ => return Err(Stop::Err(format!("intrinsic {name}"))),
        })
    }

    /// Summary of `core::str::from_utf8`: validity, `valid_up_to` and the encoded `error_len`
    /// as expressions over the bytes (the automaton of the UTF-8 definition, unrolled).
    /// An entry of the harness checks it against the executed function.
    fn utf8(&mut self, bytes: &[Result<u8, E>]) -> (E, E, E) {
        // state: (bytes of the character already read, ranges of the next byte -> next state)
        const T: &[(u128, &[(u8, u8, usize)])] = &[
            (0, &[(0, 0x7f, 0), (0xc2, 0xdf, 1), (0xe0, 0xe0, 2), (0xe1, 0xec, 3), (0xed, 0xed, 4), (0xee, 0xef, 3), (0xf0, 0xf0, 5), (0xf1, 0xf3, 6), (0xf4, 0xf4, 7)]),
            (1, &[(0x80, 0xbf, 0)]),
            (1, &[(0xa0, 0xbf, 8)]),
            (1, &[(0x80, 0xbf, 8)]),
            (1, &[(0x80, 0x9f, 8)]),
            (1, &[(0x90, 0xbf, 9)]),
            (1, &[(0x80, 0xbf, 9)]),
            (1, &[(0x80, 0x8f, 9)]),
            (2, &[(0x80, 0xbf, 0)]),
            (2, &[(0x80, 0xbf, 10)]),
            (3, &[(0x80, 0xbf, 0)]),
        ];
        let f = self.ctx.c(0, 1);
        let t = self.ctx.c(1, 1);
        let mut cur = vec![f; T.len()];
        cur[0] = t;
        let zero = self.ctx.c(0, 64);
        let zero16 = self.ctx.c(0, 16);
        let (mut upto, mut elen) = (zero, zero16);
        for (i, b) in bytes.iter().enumerate() {
            let e = match b {
                Ok(x) => self.ctx.c(*x as u128, 8),
                Err(e) => *e,
            };
            let mut nxt = vec![f; T.len()];
            for (s, (depth, edges)) in T.iter().enumerate() {
                if cur[s] == f {
                    continue;
                }
                let mut any = f;
                for (lo, hi, to) in *edges {
                    let (l, h) = (self.ctx.c(*lo as u128, 8), self.ctx.c(*hi as u128, 8));
                    let a = self.ctx.ule(l, e);
                    let c = self.ctx.ule(e, h);
                    let r = self.ctx.and(a, c);
                    any = self.ctx.or(any, r);
                    let g = self.ctx.and(cur[s], r);
                    nxt[*to] = self.ctx.or(nxt[*to], g);
                }
                let none = self.ctx.not1(any);
                let bad = self.ctx.and(cur[s], none);
                let u = self.ctx.c(i as u128 - depth, 64);
                let l = self.ctx.c(1 | (*depth).max(1) << 8, 16);
                upto = self.ctx.ite(bad, u, upto);
                elen = self.ctx.ite(bad, l, elen);
            }
            cur = nxt;
        }
        for (s, (depth, _)) in T.iter().enumerate().skip(1) {
            let u = self.ctx.c((bytes.len() as u128).wrapping_sub(*depth) & mask(64), 64);
            upto = self.ctx.ite(cur[s], u, upto);
        }
        (cur[0], upto, elen)
    }

    pub fn fork_profile(&self) -> Vec<(u64, String)> {
        let mut v: Vec<(u64, String)> =
            self.fork_sites.iter().map(|((f, b, p), n)| (*n, format!("{} bb{} i{}", self.m.funcs[*f as usize].name, b, p))).collect();
        v.sort_by(|a, b| b.0.cmp(&a.0));
        v
    }
    #[allow(dead_code)]
    fn unused(&self) -> usize {
        self.tls.len()
    }
}
