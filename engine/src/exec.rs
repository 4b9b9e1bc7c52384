//! Path-exhaustive symbolic execution of a decoded program.
use crate::expr::{Ans, Ctx, Ex, Op};
use crate::llvm::*;
use std::collections::BTreeMap;
use std::collections::HashMap;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    E(Ex),
    A(Rc<Vec<Val>>),
}
use Val::{A, C, E};

#[derive(Clone)]
pub struct Obj {
    data: Vec<u8>,
    sym: BTreeMap<u32, Ex>,
    writable: bool,
    alive: bool,
}

const STACK_TAG: u64 = 1 << 60;
const HEAP_TAG: u64 = 1 << 59;

#[derive(Clone)]
struct Frame {
    func: u32,
    block: u32,
    prev: u32,
    ip: u32,
    dst: u32,
    stack_base: usize,
    regs: Vec<Val>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    globals: Rc<Vec<Rc<Obj>>>,
    heap: Vec<Rc<Obj>>,
    stack: Vec<Rc<Obj>>,
    stack_ids: Vec<u64>,
    next_stack: u64,
    path: Vec<Ex>,
    pub model: Vec<u64>,
    pub vars: Vec<u32>,
    conc: Vec<(Ex, u64)>,
    obs: Vec<Val>,
    choose_depth: usize,
    pub steps: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub trace: Vec<String>,
    pub inputs: Vec<(u32, u64)>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub checks: u64,
    pub checks_solver: u64,
    pub branches: u64,
    pub forks: u64,
    pub steps: u64,
    pub queries: u64,
    pub cache_hits: u64,
    pub solver_ns: u64,
    pub max_query_ns: u64,
    pub max_path_steps: u64,
    pub max_vars: u64,
    pub covers: BTreeMap<u32, u64>,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub samples: Vec<(Vec<(u32, u64)>, Vec<u64>)>,
    pub wall_ns: u64,
}

pub enum Stop {
    Violation(String, String),
    Error(String),
    /// the current state ends here (infeasible or forked away)
    Gone,
}
type Res<T> = Result<T, Stop>;

fn ub<T>(m: impl Into<String>) -> Res<T> { Err(Stop::Violation("memory".into(), m.into())) }
fn err<T>(m: impl Into<String>) -> Res<T> { Err(Stop::Error(m.into())) }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Hook { None, Alloc, AllocZ, Dealloc, Realloc, Panic, NoShim, AllocErr }

pub struct Limits {
    pub max_path_steps: u64,
    pub max_states: usize,
    pub max_violations: usize,
    pub deadline: Instant,
    pub shard_depth: usize,
    pub samples: usize,
}

pub struct Exec<'p> {
    p: &'p Program,
    pub cx: Ctx,
    hooks: Vec<Hook>,
    consts: Vec<Val>,
    work: Vec<State>,
    pub stats: Stats,
    pub cov: Vec<bool>,
    lim: &'p Limits,
    forced: Vec<u64>,
    pub new_tasks: Vec<Vec<u64>>,
    globals0: Rc<Vec<Rc<Obj>>>,
    rng: u64,
}

fn hook_of(n: &str) -> Hook {
    if n.ends_with("12___rust_alloc") || n == "__rust_alloc" { return Hook::Alloc; }
    if n.ends_with("19___rust_alloc_zeroed") { return Hook::AllocZ; }
    if n.ends_with("14___rust_dealloc") { return Hook::Dealloc; }
    if n.ends_with("14___rust_realloc") { return Hook::Realloc; }
    if n.contains("___rust_no_alloc_shim") { return Hook::NoShim; }
    if n.contains("handle_alloc_error") || n.contains("alloc_error_handler") { return Hook::AllocErr; }
    if n.contains("rust_begin_unwind") || n.contains("rust_panic")
        || ((n.contains("4core9panicking") || n.contains("3std9panicking")) && !n.contains("panic_count") && !n.contains("catch_unwind") && !n.contains("drop_glue"))
    { return Hook::Panic; }
    Hook::None
}

fn to_val(c: &CVal, cx: &mut Ctx) -> Val {
    match c {
        CVal::Int(x, w) => if *w <= 64 { C(*x as u64) } else { E(cx.cst(*w, *x)) },
        CVal::Agg(v) => A(Rc::new(v.iter().map(|x| to_val(x, cx)).collect())),
    }
}

impl<'p> Exec<'p> {
    pub fn new(p: &'p Program, lim: &'p Limits, seed: u64) -> Self {
        let mut cx = Ctx::new(120_000);
        let consts = p.consts.iter().map(|c| to_val(c, &mut cx)).collect();
        let globals0 = Rc::new(p.globals.iter().map(|g| Rc::new(Obj {
            data: g.data.clone(), sym: BTreeMap::new(), writable: g.writable, alive: true })).collect());
        Exec {
            p, cx, hooks: p.funcs.iter().map(|f| hook_of(&f.name)).collect(), consts, work: vec![],
            stats: Stats::default(), cov: vec![false; p.locs.len()], lim, forced: vec![], new_tasks: vec![], globals0,
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
        }
    }

    /// Explores every path of `harness` whose first `vx_choose` results are `forced`.
    pub fn run(&mut self, fix: u32, forced: Vec<u64>) {
        self.forced = forced;
        let f = &self.p.funcs[fix as usize];
        let s = State {
            frames: vec![Frame { func: fix, block: f.entry, prev: 0, ip: 0, dst: 0, stack_base: 0, regs: vec![C(0); f.nregs as usize] }],
            globals: self.globals0.clone(), heap: vec![], stack: vec![], stack_ids: vec![], next_stack: 0, path: vec![], model: vec![], vars: vec![],
            conc: vec![], obs: vec![], choose_depth: 0, steps: 0,
        };
        self.work.push(s);
        while let Some(mut s) = self.work.pop() {
            if Instant::now() > self.lim.deadline {
                self.stats.errors.push("time limit reached before all paths were explored".into());
                self.work.clear();
                break;
            }
            if self.work.len() > self.lim.max_states {
                self.stats.errors.push("too many pending states".into());
                self.work.clear();
                break;
            }
            let r = self.run_state(&mut s);
            self.stats.steps += s.steps;
            self.stats.max_path_steps = self.stats.max_path_steps.max(s.steps);
            match r {
                Ok(()) => {
                    self.stats.paths += 1;
                    self.stats.max_vars = self.stats.max_vars.max(s.vars.len() as u64);
                    self.sample(&s);
                }
                Err(Stop::Gone) => self.stats.infeasible += 1,
                Err(Stop::Error(m)) => {
                    let t = self.trace(&s).join(" <- ");
                    if self.stats.errors.len() < 5 { self.stats.errors.push(format!("{} at {}", m, t)); }
                }
                Err(Stop::Violation(kind, msg)) => {
                    self.stats.paths += 1;
                    let trace = self.trace(&s);
                    let v = Violation { kind, msg, trace, inputs: s.vars.iter().copied().zip(s.model.iter().copied()).collect() };
                    if self.stats.violations.len() < self.lim.max_violations { self.stats.violations.push(v); }
                    if self.stats.violations.len() >= self.lim.max_violations { self.work.clear(); }
                }
            }
        }
        self.stats.queries = self.cx.queries;
        self.stats.cache_hits = self.cx.cache_hits;
        self.stats.solver_ns = self.cx.solver_ns;
        self.stats.max_query_ns = self.cx.max_query_ns;
    }

    fn sample(&mut self, s: &State) {
        let n = self.lim.samples;
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        let slot = if self.stats.samples.len() < n { self.stats.samples.len() } else {
            let r = (self.rng % self.stats.paths.max(1)) as usize;
            if r >= n { return; }
            r
        };
        let inputs: Vec<(u32, u64)> = s.vars.iter().copied().zip(s.model.iter().copied()).collect();
        let obs = s.obs.iter().map(|v| match v { C(x) => *x, E(e) => self.cx.eval(*e, &s.model) as u64, A(_) => 0 }).collect();
        let x = (inputs, obs);
        if slot < self.stats.samples.len() { self.stats.samples[slot] = x } else { self.stats.samples.push(x) }
    }

    fn trace(&self, s: &State) -> Vec<String> {
        s.frames.iter().rev().take(12).map(|f| {
            let fu = &self.p.funcs[f.func as usize];
            let b = &fu.blocks[f.block as usize];
            let i = (f.ip as usize).min(b.ins.len() - 1);
            let l = &self.p.locs[b.ins[i].loc as usize];
            format!("{} ({}:{})", fu.name, l.0, l.1)
        }).collect()
    }

    // ---- values
    fn ex(&mut self, v: &Val, w: u32) -> Ex {
        match v {
            C(x) => self.cx.cst(w, *x as u128),
            E(e) => *e,
            A(l) => {
                // a vector viewed as an integer
                let ew = w / l.len() as u32;
                let mut r: Option<Ex> = None;
                for x in l.iter() {
                    let e = self.ex(x, ew);
                    r = Some(match r { None => e, Some(lo) => self.cx.concat(e, lo) });
                }
                r.unwrap()
            }
        }
    }
    fn val(&self, e: Ex) -> Val {
        let n = &self.cx.nodes[e as usize];
        if n.op == Op::Const && n.w <= 64 { C(n.k as u64) } else { E(e) }
    }
    fn opd(&self, s: &State, o: Opd) -> Val {
        match o {
            Opd::Reg(r) => s.frames.last().unwrap().regs[r as usize].clone(),
            Opd::Const(c) => self.consts[c as usize].clone(),
        }
    }

    fn add_path(&mut self, s: &mut State, c: Ex) {
        if self.cx.k(c).is_none() && !s.path.contains(&c) {
            s.path.push(c);
        }
    }
    fn holds(&mut self, s: &State, c: Ex) -> bool { self.cx.eval(c, &s.model) == 1 }
    fn apply(&self, s: &mut State, a: &[(u32, u64)]) {
        for (i, v) in a { s.model[*i as usize] = *v; }
    }

    /// Decides a symbolic condition; pushes the other side as a new state
    /// when it is feasible too and calls `other` on it.
    fn branch(&mut self, s: &mut State, c: Ex, other: impl FnOnce(&mut Self, &mut State, bool) -> Res<()>) -> Res<bool> {
        self.stats.branches += 1;
        let side = self.holds(s, c);
        let nc = self.cx.not1(c);
        let (mine, oth) = if side { (c, nc) } else { (nc, c) };
        if s.path.contains(&mine) { return Ok(side); }
        match self.cx.check(&s.path, oth, &s.vars) {
            Ans::Unsat => {}
            Ans::Unknown => return err("solver answered unknown"),
            Ans::Sat(m) => {
                let mut t = s.clone();
                t.steps = 0;
                self.apply(&mut t, &m);
                self.add_path(&mut t, oth);
                other(self, &mut t, !side)?;
                self.stats.forks += 1;
                self.work.push(t);
            }
        }
        self.add_path(s, mine);
        Ok(side)
    }

    /// A concrete value for `v`: forks one state per feasible value.
    fn conc(&mut self, s: &mut State, v: &Val, w: u32) -> Res<u64> {
        let e = match v { C(x) => return Ok(*x), E(e) => *e, A(_) => self.ex(v, w) };
        if let Some(k) = self.cx.k(e) { return Ok(k as u64); }
        if let Some(x) = s.conc.iter().find(|x| x.0 == e) { return Ok(x.1); }
        let first = self.cx.eval(e, &s.model) as u64;
        let mut excl = s.path.clone();
        let mut vals = vec![];
        let k = self.cx.cst(w, first as u128);
        let eq = self.cx.bin(Op::Eq, e, k);
        let mut ne = self.cx.not1(eq);
        loop {
            match self.cx.check(&excl, ne, &s.vars) {
                Ans::Unsat => break,
                Ans::Unknown => return err("solver answered unknown"),
                Ans::Sat(m) => {
                    let mut t = s.model.clone();
                    for (i, v) in m.iter() { t[*i as usize] = *v; }
                    let x = self.cx.eval(e, &t) as u64;
                    vals.push((x, t));
                    if vals.len() > 1200 { return err("too many values to concretise"); }
                    if self.cx.k(ne).is_none() { excl.push(ne); }
                    let k = self.cx.cst(w, x as u128);
                    let eq = self.cx.bin(Op::Eq, e, k);
                    ne = self.cx.not1(eq);
                }
            }
        }
        for (x, m) in vals {
            let mut t = s.clone();
            t.steps = 0;
            t.model = m;
            let k = self.cx.cst(w, x as u128);
            let eq = self.cx.bin(Op::Eq, e, k);
            self.add_path(&mut t, eq);
            t.conc.push((e, x));
            self.stats.forks += 1;
            self.work.push(t);
        }
        let k = self.cx.cst(w, first as u128);
        let eq = self.cx.bin(Op::Eq, e, k);
        self.add_path(s, eq);
        s.conc.push((e, first));
        Ok(first)
    }

    // ---- memory
    fn new_obj(size: u64) -> Rc<Obj> {
        Rc::new(Obj { data: vec![0xAA; size as usize], sym: BTreeMap::new(), writable: true, alive: true })
    }
    fn alloc_heap(&mut self, s: &mut State, size: u64, zero: bool) -> Res<u64> {
        if size > 1 << 20 { return err(format!("allocation of {} bytes", size)); }
        let mut o = Self::new_obj(size);
        if zero { Rc::get_mut(&mut o).unwrap().data.iter_mut().for_each(|b| *b = 0); }
        s.heap.push(o);
        Ok(HEAP_TAG | ((s.heap.len() as u64) << 24))
    }
    fn free_heap(&mut self, s: &mut State, p: u64) -> Res<()> {
        if p == 0 { return Ok(()); }
        if p & HEAP_TAG == 0 || p & STACK_TAG != 0 || p & 0xff_ffff != 0 { return ub(format!("free of {:#x}", p)); }
        let id = ((p & !HEAP_TAG) >> 24) as usize;
        if id == 0 || id > s.heap.len() { return ub("free of unknown block"); }
        if !s.heap[id - 1].alive { return ub("double free"); }
        s.heap[id - 1] = Rc::new(Obj { data: vec![], sym: BTreeMap::new(), writable: false, alive: false });
        Ok(())
    }
    /// (kind 0=heap 1=stack 2=global, index, offset)
    fn resolve(&self, s: &State, a: u64, n: u64, write: bool) -> Res<(u8, usize, u64)> {
        let (k, i, off) = if a & STACK_TAG != 0 && a >> 61 == 0 {
            let id = (a & !STACK_TAG) >> 24;
            match s.stack_ids.binary_search(&id) {
                Ok(i) => (1u8, i, a & 0xff_ffff),
                Err(_) => return ub("use of a stack slot after return"),
            }
        } else if a & HEAP_TAG != 0 && a >> 60 == 0 {
            let id = ((a & !HEAP_TAG) >> 24) as usize;
            if id == 0 || id > s.heap.len() { return ub(format!("wild pointer {:#x}", a)); }
            (0, id - 1, a & 0xff_ffff)
        } else if a >= GLOBAL_BASE && a >> 40 == 0 {
            let g = &self.p.globals;
            let i = g.partition_point(|x| x.addr <= a);
            if i == 0 { return ub(format!("wild pointer {:#x}", a)); }
            (2, i - 1, a - g[i - 1].addr)
        } else {
            return ub(format!("access of {} bytes through invalid pointer {:#x}", n, a));
        };
        let o = match k { 0 => &s.heap[i], 1 => &s.stack[i], _ => &s.globals[i] };
        if !o.alive { return ub("use after free"); }
        if off + n > o.data.len() as u64 { return ub(format!("out-of-bounds access: offset {} size {} in a block of {} bytes", off, n, o.data.len())); }
        if write && !o.writable { return ub("write to constant memory"); }
        Ok((k, i, off))
    }
    fn obj<'a>(s: &'a State, k: u8, i: usize) -> &'a Obj {
        match k { 0 => &s.heap[i], 1 => &s.stack[i], _ => &s.globals[i] }
    }
    fn obj_mut<'a>(s: &'a mut State, k: u8, i: usize) -> &'a mut Obj {
        match k {
            0 => Rc::make_mut(&mut s.heap[i]),
            1 => Rc::make_mut(&mut s.stack[i]),
            _ => Rc::make_mut(&mut Rc::make_mut(&mut s.globals)[i]),
        }
    }
    fn load_int(&mut self, s: &State, a: u64, w: u32) -> Res<Val> {
        let n = ((w + 7) / 8) as u64;
        let (k, i, off) = self.resolve(s, a, n, false)?;
        let o = Self::obj(s, k, i);
        let any = !o.sym.is_empty() && o.sym.range(off as u32..(off + n) as u32).next().is_some();
        if !any {
            let mut b = [0u8; 16];
            b[..n as usize].copy_from_slice(&o.data[off as usize..(off + n) as usize]);
            let x = u128::from_le_bytes(b) & mask(w);
            return Ok(if w <= 64 { C(x as u64) } else { E(self.cx.cst(w, x)) });
        }
        let mut r: Option<Ex> = None;
        // concat from the high byte down, so that neighbouring extracts recombine
        let mut bytes = vec![];
        for j in 0..n {
            bytes.push(match o.sym.get(&((off + j) as u32)) { Some(e) => Ok(*e), None => Err(o.data[(off + j) as usize]) });
        }
        for b in bytes.iter() {
            let e = match b { Ok(e) => *e, Err(x) => self.cx.cst(8, *x as u128) };
            r = Some(match r { None => e, Some(lo) => self.cx.concat(e, lo) });
        }
        let e = r.unwrap();
        let e = if n as u32 * 8 > w { self.cx.extract(e, w - 1, 0) } else { e };
        Ok(self.val(e))
    }
    fn store_int(&mut self, s: &mut State, a: u64, w: u32, v: &Val) -> Res<()> {
        let n = ((w + 7) / 8) as u64;
        let (k, i, off) = self.resolve(s, a, n, true)?;
        match v {
            C(x) => {
                let o = Self::obj_mut(s, k, i);
                let x = (*x as u128 & mask(w)).to_le_bytes();
                o.data[off as usize..(off + n) as usize].copy_from_slice(&x[..n as usize]);
                if !o.sym.is_empty() { for j in 0..n { o.sym.remove(&((off + j) as u32)); } }
            }
            _ => {
                let e = self.ex(v, w);
                let e = if n as u32 * 8 > w { self.cx.zext(e, n as u32 * 8) } else { e };
                let parts: Vec<Ex> = (0..n as u32).map(|j| self.cx.extract(e, j * 8 + 7, j * 8)).collect();
                let ks: Vec<Option<u128>> = parts.iter().map(|p| self.cx.k(*p)).collect();
                let o = Self::obj_mut(s, k, i);
                for (j, (p, c)) in parts.iter().zip(ks).enumerate() {
                    let at = off + j as u64;
                    match c {
                        Some(x) => { o.data[at as usize] = x as u8; o.sym.remove(&(at as u32)); }
                        None => { o.sym.insert(at as u32, *p); }
                    }
                }
            }
        }
        Ok(())
    }
    fn load_ty(&mut self, s: &State, a: u64, t: &Ty) -> Res<Val> {
        Ok(match t {
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for (t, o) in f { v.push(self.load_ty(s, a + o, t)?); }
                A(Rc::new(v))
            }
            Ty::Array(e, n, st) => {
                let mut v = vec![];
                for i in 0..*n { v.push(self.load_ty(s, a + i * st, e)?); }
                A(Rc::new(v))
            }
            Ty::Vec(e, n) => {
                let st = (e.bits() / 8) as u64;
                if st == 0 { return err("load of a bit vector"); }
                let mut v = vec![];
                for i in 0..*n { v.push(self.load_ty(s, a + i * st, e)?); }
                A(Rc::new(v))
            }
            Ty::Other | Ty::Void => return err("load type"),
            t => self.load_int(s, a, t.bits())?,
        })
    }
    fn store_ty(&mut self, s: &mut State, a: u64, t: &Ty, v: &Val) -> Res<()> {
        match (t, v) {
            (Ty::Struct(f, _), A(l)) => for ((t, o), x) in f.iter().zip(l.iter()) { self.store_ty(s, a + o, t, x)?; },
            (Ty::Array(e, _, st), A(l)) => for (i, x) in l.iter().enumerate() { self.store_ty(s, a + i as u64 * st, e, x)?; },
            (Ty::Vec(e, _), A(l)) => {
                let st = (e.bits() / 8) as u64;
                if st == 0 { return err("store of a bit vector"); }
                for (i, x) in l.iter().enumerate() { self.store_ty(s, a + i as u64 * st, e, x)?; }
            }
            (Ty::Other | Ty::Void | Ty::Struct(..) | Ty::Array(..), _) => return err("store type"),
            (t, v) => self.store_int(s, a, t.bits(), v)?,
        }
        Ok(())
    }
    fn get_bytes(&mut self, s: &State, a: u64, n: u64) -> Res<(Vec<u8>, Vec<(u32, Ex)>)> {
        if n == 0 { return Ok((vec![], vec![])); }
        let (k, i, off) = self.resolve(s, a, n, false)?;
        let o = Self::obj(s, k, i);
        let d = o.data[off as usize..(off + n) as usize].to_vec();
        let y = o.sym.range(off as u32..(off + n) as u32).map(|(p, e)| (*p - off as u32, *e)).collect();
        Ok((d, y))
    }
    fn put_bytes(&mut self, s: &mut State, a: u64, d: Vec<u8>, y: Vec<(u32, Ex)>) -> Res<()> {
        let n = d.len() as u64;
        if n == 0 { return Ok(()); }
        let (k, i, off) = self.resolve(s, a, n, true)?;
        let o = Self::obj_mut(s, k, i);
        o.data[off as usize..(off + n) as usize].copy_from_slice(&d);
        if !o.sym.is_empty() {
            let ks: Vec<u32> = o.sym.range(off as u32..(off + n) as u32).map(|x| *x.0).collect();
            for k in ks { o.sym.remove(&k); }
        }
        for (p, e) in y { o.sym.insert(p + off as u32, e); }
        Ok(())
    }

    // ---- scalar operations
    fn bin_val(&mut self, b: Bin, w: u32, x: &Val, y: &Val, f: &Ty) -> Res<Val> {
        if matches!(b, Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv | Bin::FRem) {
            let (x, y) = match (x, y) {
                (C(x), C(y)) => (*x, *y),
                _ => {
                    let op = match b { Bin::FAdd => Op::FAdd, Bin::FSub => Op::FSub, Bin::FMul => Op::FMul, Bin::FDiv => Op::FDiv, _ => return err("symbolic floating point remainder") };
                    let w = f.bits();
                    if !matches!(f, Ty::F32 | Ty::F64) { return err("floating point type"); }
                    let (x, y) = (self.ex(x, w), self.ex(y, w));
                    let e = self.cx.float(op, w, x, y);
                    return Ok(self.val(e));
                }
            };
            return Ok(match f {
                Ty::F32 => {
                    let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    C((match b { Bin::FAdd => x + y, Bin::FSub => x - y, Bin::FMul => x * y, Bin::FDiv => x / y, _ => x % y }).to_bits() as u64)
                }
                _ => {
                    let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                    C((match b { Bin::FAdd => x + y, Bin::FSub => x - y, Bin::FMul => x * y, Bin::FDiv => x / y, _ => x % y }).to_bits())
                }
            });
        }
        let op = match b {
            Bin::Add => Op::Add, Bin::Sub => Op::Sub, Bin::Mul => Op::Mul, Bin::UDiv => Op::UDiv, Bin::SDiv => Op::SDiv,
            Bin::URem => Op::URem, Bin::SRem => Op::SRem, Bin::Shl => Op::Shl, Bin::LShr => Op::LShr, Bin::AShr => Op::AShr,
            Bin::And => Op::And, Bin::Or => Op::Or, Bin::Xor => Op::Xor, _ => unreachable!(),
        };
        if let (C(a), C(c)) = (x, y) {
            if w <= 64 {
                let m = mask(w) as u64;
                let r = match b {
                    Bin::Add => a.wrapping_add(*c) & m,
                    Bin::Sub => a.wrapping_sub(*c) & m,
                    Bin::And => a & c,
                    Bin::Or => a | c,
                    Bin::Xor => a ^ c,
                    Bin::Mul => a.wrapping_mul(*c) & m,
                    Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem if *c == 0 => return ub("division by zero"),
                    _ => crate::expr::fold(op, w, w, *a as u128, *c as u128) as u64,
                };
                return Ok(C(r));
            }
        }
        let (ex, ey) = (self.ex(x, w), self.ex(y, w));
        let r = self.cx.bin(op, ex, ey);
        Ok(self.val(r))
    }
    fn icmp_val(&mut self, p: Pred, w: u32, x: &Val, y: &Val) -> Val {
        if let (C(a), C(b)) = (x, y) {
            if w <= 64 {
                let (a, b) = (*a, *b);
                let (sa, sb) = (sext(a, w), sext(b, w));
                return C(match p {
                    Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Ult => a < b,
                    Pred::Ule => a <= b, Pred::Sgt => sa > sb, Pred::Sge => sa >= sb, Pred::Slt => sa < sb, Pred::Sle => sa <= sb,
                } as u64);
            }
        }
        let (ex, ey) = (self.ex(x, w), self.ex(y, w));
        let r = self.icmp_ex(p, ex, ey);
        self.val(r)
    }
    fn icmp_ex(&mut self, p: Pred, a: Ex, b: Ex) -> Ex {
        match p {
            Pred::Eq => self.cx.bin(Op::Eq, a, b),
            Pred::Ne => { let e = self.cx.bin(Op::Eq, a, b); self.cx.not1(e) }
            Pred::Ult => self.cx.bin(Op::Ult, a, b),
            Pred::Ule => self.cx.bin(Op::Ule, a, b),
            Pred::Ugt => self.cx.bin(Op::Ult, b, a),
            Pred::Uge => self.cx.bin(Op::Ule, b, a),
            Pred::Slt => self.cx.bin(Op::Slt, a, b),
            Pred::Sle => self.cx.bin(Op::Sle, a, b),
            Pred::Sgt => self.cx.bin(Op::Slt, b, a),
            Pred::Sge => self.cx.bin(Op::Sle, b, a),
        }
    }
    fn cast_val(&mut self, c: Cast, f: &Ty, t: &Ty, v: &Val) -> Res<Val> {
        let (fw, tw) = (f.bits(), t.bits());
        Ok(match c {
            Cast::Trunc | Cast::ZExt | Cast::SExt => match v {
                C(x) if tw <= 64 => C(match c {
                    Cast::Trunc => x & mask(tw) as u64,
                    Cast::ZExt => *x,
                    _ => sext(*x, fw) as u64 & mask(tw) as u64,
                }),
                _ => {
                    let e = self.ex(v, fw);
                    let r = match c {
                        Cast::Trunc => self.cx.extract(e, tw - 1, 0),
                        Cast::ZExt => self.cx.zext(e, tw),
                        _ => self.cx.sext(e, tw),
                    };
                    self.val(r)
                }
            },
            Cast::Bit => {
                match (f, t) {
                    (Ty::Vec(..), Ty::Vec(te, n)) | (_, Ty::Vec(te, n)) => {
                        let e = self.ex(v, fw);
                        let ew = te.bits();
                        let l = (0..*n as u32).map(|i| { let x = self.cx.extract(e, i * ew + ew - 1, i * ew); self.val(x) }).collect();
                        A(Rc::new(l))
                    }
                    (Ty::Vec(..), _) => { let e = self.ex(v, fw); self.val(e) }
                    _ => v.clone(),
                }
            }
            _ => {
                let x = match v {
                    C(x) => *x,
                    _ => {
                        let op = match c { _ if fw > 64 => return err("wide floating point conversion"), Cast::UiToFp => Op::UToF, Cast::SiToFp => Op::SToF, Cast::FpToUi | Cast::FpToSi => return err("symbolic floating point conversion"), _ => Op::FCast };
                        let x = self.ex(v, fw);
                        let e = self.cx.float(op, tw, x, x);
                        return Ok(self.val(e));
                    }
                };
                let fl = |x: u64| -> f64 { if *f == Ty::F32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) } };
                C(match c {
                    Cast::FpToUi => (fl(x) as u64) & mask(tw) as u64,
                    Cast::FpToSi => (fl(x) as i64) as u64 & mask(tw) as u64,
                    Cast::UiToFp => if *t == Ty::F32 { (x as f32).to_bits() as u64 } else { (x as f64).to_bits() },
                    Cast::SiToFp => { let y = sext(x, fw); if *t == Ty::F32 { (y as f32).to_bits() as u64 } else { (y as f64).to_bits() } }
                    Cast::FpTrunc => (f64::from_bits(x) as f32).to_bits() as u64,
                    _ => (f32::from_bits(x as u32) as f64).to_bits(),
                })
            }
        })
    }
    fn select_val(&mut self, c: Ex, x: &Val, y: &Val, t: &Ty) -> Val {
        match (x, y) {
            (A(l), A(m)) => {
                let r = l.iter().zip(m.iter()).enumerate().map(|(i, (p, q))| {
                    let et = match t {
                        Ty::Struct(f, _) => f[i].0.clone(),
                        Ty::Array(e, _, _) | Ty::Vec(e, _) => (**e).clone(),
                        _ => Ty::Int(64),
                    };
                    self.select_val(c, p, q, &et)
                }).collect();
                A(Rc::new(r))
            }
            _ => {
                let w = t.bits();
                let (a, b) = (self.ex(x, w), self.ex(y, w));
                let r = self.cx.ite(c, a, b);
                self.val(r)
            }
        }
    }

    // ---- control
    fn jump(&mut self, s: &mut State, to: u32) {
        let f = s.frames.last_mut().unwrap();
        let from = f.block;
        let b = &self.p.funcs[f.func as usize].blocks[to as usize];
        if !b.phis.is_empty() {
            if let Some((_, l)) = b.phis.iter().find(|x| x.0 == from) {
                let vals: Vec<Val> = l.iter().map(|(_, o)| match o {
                    Opd::Reg(r) => f.regs[*r as usize].clone(),
                    Opd::Const(c) => self.consts[*c as usize].clone(),
                }).collect();
                for ((d, _), v) in l.iter().zip(vals) { f.regs[*d as usize] = v; }
            }
        }
        f.prev = from;
        f.block = to;
        f.ip = 0;
    }
    fn set(s: &mut State, d: u32, v: Val) {
        s.frames.last_mut().unwrap().regs[d as usize] = v;
    }
    fn adv(s: &mut State) { s.frames.last_mut().unwrap().ip += 1; }

    fn run_state(&mut self, s: &mut State) -> Res<()> {
        let p = self.p;
        loop {
            s.steps += 1;
            if s.steps > self.lim.max_path_steps {
                return Err(Stop::Violation("nontermination".into(), format!("path longer than {} instructions", self.lim.max_path_steps)));
            }
            if s.steps & 0xffff == 0 && Instant::now() > self.lim.deadline {
                return err("time limit reached before all paths were explored");
            }
            let f = s.frames.last().unwrap();
            let ins = &p.funcs[f.func as usize].blocks[f.block as usize].ins[f.ip as usize];
            self.cov[ins.loc as usize] = true;
            let d = ins.dst;
            match &ins.ins {
                Ins::Nop => Self::adv(s),
                Ins::Zero(t) => {
                    fn z(t: &Ty) -> Val {
                        match t {
                            Ty::Struct(f, _) => A(Rc::new(f.iter().map(|x| z(&x.0)).collect())),
                            Ty::Array(e, n, _) => A(Rc::new((0..*n).map(|_| z(e)).collect())),
                            Ty::Vec(e, n) => A(Rc::new((0..*n).map(|_| z(e)).collect())),
                            _ => C(0),
                        }
                    }
                    Self::set(s, d, z(t));
                    Self::adv(s);
                }
                Ins::Bin(b, t, x, y) => {
                    let (x, y) = (self.opd(s, *x), self.opd(s, *y));
                    let r = match t {
                        Ty::Vec(e, _) => {
                            let (l, m) = (self.velems(&x)?, self.velems(&y)?);
                            let mut o = vec![];
                            for (p, q) in l.iter().zip(m.iter()) { o.push(self.bin_val(*b, e.bits(), p, q, e)?); }
                            A(Rc::new(o))
                        }
                        t => self.bin_val(*b, t.bits(), &x, &y, t)?,
                    };
                    Self::set(s, d, r);
                    Self::adv(s);
                }
                Ins::ICmp(pr, t, x, y) => {
                    let (x, y) = (self.opd(s, *x), self.opd(s, *y));
                    let r = match t {
                        Ty::Vec(e, _) => {
                            let (l, m) = (self.velems(&x)?, self.velems(&y)?);
                            let o = l.iter().zip(m.iter()).map(|(p, q)| self.icmp_val(*pr, e.bits(), p, q)).collect();
                            A(Rc::new(o))
                        }
                        t => self.icmp_val(*pr, t.bits(), &x, &y),
                    };
                    Self::set(s, d, r);
                    Self::adv(s);
                }
                Ins::FCmp(pr, t, x, y) => {
                    let (x, y) = (self.opd(s, *x), self.opd(s, *y));
                    let (x, y) = match (&x, &y) {
                        (C(x), C(y)) => (*x, *y),
                        _ => {
                            if !matches!(t, Ty::F32 | Ty::F64) { return err("symbolic floating point comparison"); }
                            let w = t.bits();
                            let (x, y) = (self.ex(&x, w), self.ex(&y, w));
                            let eq = self.cx.float(Op::FEq, 1, x, y);
                            let (gt, lt) = (self.cx.float(Op::FLt, 1, y, x), self.cx.float(Op::FLt, 1, x, y));
                            let (xx, yy) = (self.cx.float(Op::FEq, 1, x, x), self.cx.float(Op::FEq, 1, y, y));
                            let ord = self.cx.bin(Op::And, xx, yy);
                            let un = self.cx.not1(ord);
                            let mut r = self.cx.cst(1, 0);
                            for (bit, e) in [eq, gt, lt, un].into_iter().enumerate() {
                                if *pr >> bit & 1 != 0 { r = self.cx.bin(Op::Or, r, e); }
                            }
                            let r = self.val(r);
                            Self::set(s, d, r);
                            Self::adv(s);
                            continue;
                        }
                    };
                    let (x, y) = if *t == Ty::F32 { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { (f64::from_bits(x), f64::from_bits(y)) };
                    let un = x.is_nan() || y.is_nan();
                    // bit 0: eq, 1: gt, 2: lt, 3: unordered
                    let bits = if un { 8 } else if x == y { 1 } else if x > y { 2 } else { 4 };
                    Self::set(s, d, C((*pr & bits != 0) as u64));
                    Self::adv(s);
                }
                Ins::FNeg(t, x) => {
                    let x = self.opd(s, *x);
                    let w = t.bits();
                    let r = self.bin_val(Bin::Xor, w, &x, &C(1u64 << (w - 1)), &Ty::Int(w))?;
                    Self::set(s, d, r);
                    Self::adv(s);
                }
                Ins::Cast(c, f, t, x) => {
                    let x = self.opd(s, *x);
                    let r = match (c, f, t) {
                        (Cast::Bit, _, _) => self.cast_val(*c, f, t, &x)?,
                        (_, Ty::Vec(fe, _), Ty::Vec(te, _)) => {
                            let l = self.velems(&x)?;
                            let mut o = vec![];
                            for p in l.iter() { o.push(self.cast_val(*c, fe, te, p)?); }
                            A(Rc::new(o))
                        }
                        _ => self.cast_val(*c, f, t, &x)?,
                    };
                    Self::set(s, d, r);
                    Self::adv(s);
                }
                Ins::Load(t, a) => {
                    let a = self.opd(s, *a);
                    let a = self.conc(s, &a, 64)?;
                    let v = self.load_ty(s, a, t)?;
                    Self::set(s, d, v);
                    Self::adv(s);
                }
                Ins::Store(t, v, a) => {
                    let a = self.opd(s, *a);
                    let a = self.conc(s, &a, 64)?;
                    let v = self.opd(s, *v);
                    self.store_ty(s, a, t, &v)?;
                    Self::adv(s);
                }
                Ins::Gep(b, off, dy) => {
                    let b = self.opd(s, *b);
                    let mut acc = match b { C(x) => C(x.wrapping_add(*off as u64)), _ => self.bin_val(Bin::Add, 64, &b, &C(*off as u64), &Ty::Ptr)? };
                    for (o, w, sc) in dy {
                        let i = self.opd(s, *o);
                        match (&acc, &i) {
                            (C(a), C(x)) => acc = C(a.wrapping_add((sext(*x, *w)).wrapping_mul(*sc) as u64)),
                            _ => {
                                let e = self.ex(&i, *w);
                                let e = if *w < 64 { self.cx.sext(e, 64) } else { e };
                                let k = self.cx.cst(64, *sc as u64 as u128);
                                let m = self.cx.bin(Op::Mul, e, k);
                                let a = self.ex(&acc, 64);
                                let r = self.cx.bin(Op::Add, a, m);
                                acc = self.val(r);
                            }
                        }
                    }
                    Self::set(s, d, acc);
                    Self::adv(s);
                }
                Ins::Select(c, x, y, t, vec) => {
                    let c = self.opd(s, *c);
                    let r = if *vec {
                        let (cl, xl, yl) = (self.velems(&c)?, self.opd(s, *x), self.opd(s, *y));
                        let (xl, yl) = (self.velems(&xl)?, self.velems(&yl)?);
                        let et = match t { Ty::Vec(e, _) => (**e).clone(), _ => return err("select") };
                        let mut o = vec![];
                        for i in 0..cl.len() {
                            let ce = self.ex(&cl[i], 1);
                            o.push(self.select_val(ce, &xl[i], &yl[i], &et));
                        }
                        A(Rc::new(o))
                    } else {
                        match c {
                            C(1) => self.opd(s, *x),
                            C(_) => self.opd(s, *y),
                            c => {
                                let (x, y) = (self.opd(s, *x), self.opd(s, *y));
                                let ce = self.ex(&c, 1);
                                self.select_val(ce, &x, &y, t)
                            }
                        }
                    };
                    Self::set(s, d, r);
                    Self::adv(s);
                }
                Ins::ExtractValue(x, ix) => {
                    let mut v = self.opd(s, *x);
                    for i in ix {
                        v = match v { A(l) => l[*i as usize].clone(), _ => return err("extractvalue") };
                    }
                    Self::set(s, d, v);
                    Self::adv(s);
                }
                Ins::InsertValue(x, e, ix) => {
                    let v = self.opd(s, *x);
                    let e = self.opd(s, *e);
                    fn put(v: Val, e: Val, ix: &[u32]) -> Option<Val> {
                        if ix.is_empty() { return Some(e); }
                        match v {
                            A(l) => {
                                let mut m = (*l).clone();
                                m[ix[0] as usize] = put(m[ix[0] as usize].clone(), e, &ix[1..])?;
                                Some(A(Rc::new(m)))
                            }
                            _ => None,
                        }
                    }
                    match put(v, e, ix) { Some(r) => Self::set(s, d, r), None => return err("insertvalue") }
                    Self::adv(s);
                }
                Ins::ExtractElement(x, i) => {
                    let i = self.opd(s, *i);
                    let i = self.conc(s, &i, 64)?;
                    let x = self.opd(s, *x);
                    let l = self.velems(&x)?;
                    Self::set(s, d, l[i as usize].clone());
                    Self::adv(s);
                }
                Ins::InsertElement(x, e, i) => {
                    let i = self.opd(s, *i);
                    let i = self.conc(s, &i, 64)?;
                    let x = self.opd(s, *x);
                    let mut l = (*self.velems(&x)?).clone();
                    l[i as usize] = self.opd(s, *e);
                    Self::set(s, d, A(Rc::new(l)));
                    Self::adv(s);
                }
                Ins::Shuffle(x, y, m) => {
                    let (x, y) = (self.opd(s, *x), self.opd(s, *y));
                    let (x, y) = (self.velems(&x)?, self.velems(&y)?);
                    let o = m.iter().map(|i| if *i < 0 { C(0) } else if (*i as usize) < x.len() { x[*i as usize].clone() } else { y[*i as usize - x.len()].clone() }).collect();
                    Self::set(s, d, A(Rc::new(o)));
                    Self::adv(s);
                }
                Ins::Alloca(sz, n) => {
                    let n = self.opd(s, *n);
                    let n = self.conc(s, &n, 64)?;
                    s.next_stack += 1;
                    let id = s.next_stack;
                    s.stack.push(Self::new_obj(sz * n));
                    s.stack_ids.push(id);
                    Self::set(s, d, C(STACK_TAG | (id << 24)));
                    Self::adv(s);
                }
                Ins::Freeze(x) => {
                    let v = self.opd(s, *x);
                    Self::set(s, d, v);
                    Self::adv(s);
                }
                Ins::AtomicRmw(op, t, a, v) => {
                    let a = self.opd(s, *a);
                    let a = self.conc(s, &a, 64)?;
                    let old = self.load_ty(s, a, t)?;
                    let v = self.opd(s, *v);
                    let w = t.bits();
                    let new = match op {
                        0 => v,
                        1 => self.bin_val(Bin::Add, w, &old, &v, t)?,
                        2 => self.bin_val(Bin::Sub, w, &old, &v, t)?,
                        3 => self.bin_val(Bin::And, w, &old, &v, t)?,
                        5 => self.bin_val(Bin::Or, w, &old, &v, t)?,
                        6 => self.bin_val(Bin::Xor, w, &old, &v, t)?,
                        _ => return err(format!("atomicrmw {}", op)),
                    };
                    self.store_ty(s, a, t, &new)?;
                    Self::set(s, d, old);
                    Self::adv(s);
                }
                Ins::CmpXchg(t, a, e, n) => {
                    let a = self.opd(s, *a);
                    let a = self.conc(s, &a, 64)?;
                    let old = self.load_ty(s, a, t)?;
                    let (e, n) = (self.opd(s, *e), self.opd(s, *n));
                    let w = t.bits();
                    let c = self.icmp_val(Pred::Eq, w, &old, &e);
                    let c = self.conc(s, &c, 1)?;
                    if c == 1 { self.store_ty(s, a, t, &n)?; }
                    Self::set(s, d, A(Rc::new(vec![old, C(c)])));
                    Self::adv(s);
                }
                Ins::Br(b) => self.jump(s, *b),
                Ins::CondBr(c, a, b) => {
                    let c = self.opd(s, *c);
                    let side = match c {
                        C(x) => x == 1,
                        c => {
                            let e = self.ex(&c, 1);
                            let (a, b) = (*a, *b);
                            self.branch(s, e, |me, t, side| { me.jump(t, if side { a } else { b }); Ok(()) })?
                        }
                    };
                    self.jump(s, if side { *a } else { *b });
                }
                Ins::Switch(c, w, def, cases) => {
                    let v = self.opd(s, *c);
                    match v {
                        C(x) => {
                            let t = cases.iter().find(|k| k.0 == x as u128).map(|k| k.1).unwrap_or(*def);
                            self.jump(s, t);
                        }
                        v => {
                            let e = self.ex(&v, *w);
                            if let Some(k) = self.cx.k(e) {
                                let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                                self.jump(s, t);
                                continue;
                            }
                            // targets, each with the disjunction of its case values
                            let mut tg: Vec<(u32, Ex)> = vec![];
                            let mut none = self.cx.cst(1, 1);
                            for (k, b) in cases {
                                let kc = self.cx.cst(*w, *k);
                                let q = self.cx.bin(Op::Eq, e, kc);
                                let nq = self.cx.not1(q);
                                none = self.cx.bin(Op::And, none, nq);
                                match tg.iter_mut().find(|x| x.0 == *b && *b != *def) {
                                    Some(x) => x.1 = self.cx.bin(Op::Or, x.1, q),
                                    None => if *b != *def { tg.push((*b, q)) } else { tg.push((*b, q)) },
                                }
                            }
                            tg.push((*def, none));
                            let mut mine = None;
                            for (b, q) in tg {
                                if mine.is_none() && self.holds(s, q) { mine = Some((b, q)); continue; }
                                self.stats.branches += 1;
                                match self.cx.check(&s.path, q, &s.vars) {
                                    Ans::Unsat => {}
                                    Ans::Unknown => return err("solver answered unknown"),
                                    Ans::Sat(m) => {
                                        let mut t = s.clone();
                                        t.steps = 0;
                                        self.apply(&mut t, &m);
                                        self.add_path(&mut t, q);
                                        self.jump(&mut t, b);
                                        self.stats.forks += 1;
                                        self.work.push(t);
                                    }
                                }
                            }
                            match mine {
                                Some((b, q)) => { self.add_path(s, q); self.jump(s, b); }
                                None => return err("switch without a feasible side"),
                            }
                        }
                    }
                }
                Ins::Ret(v) => {
                    let v = v.map(|o| self.opd(s, o));
                    let f = s.frames.pop().unwrap();
                    s.stack.truncate(f.stack_base);
                    s.stack_ids.truncate(f.stack_base);
                    if s.frames.is_empty() { return Ok(()); }
                    if let Some(v) = v { Self::set(s, f.dst, v); }
                    Self::adv(s);
                }
                Ins::Unreachable => return Err(Stop::Violation("unreachable".into(), "unreachable code reached".into())),
                Ins::Unsupported(m) => return err(format!("unsupported: {}", m)),
                Ins::Call(c, args, rt, tys, _) => {
                    let callee = match c {
                        Callee::Func(f) => Ok(*f),
                        Callee::Ext(e) => Err(*e),
                        Callee::Nop => { Self::adv(s); continue; }
                        Callee::Ind(o) => {
                            let v = self.opd(s, *o);
                            let a = self.conc(s, &v, 64)?;
                            match p.func_at.get(&a) { Some(x) => *x, None => return ub(format!("call through invalid pointer {:#x}", a)) }
                        }
                    };
                    match callee {
                        Ok(fx) => {
                            let h = self.hooks[fx as usize];
                            if h != Hook::None {
                                let a: Vec<Val> = args.iter().map(|o| self.opd(s, *o)).collect();
                                let r = self.hook(s, h, &a, &p.funcs[fx as usize].name)?;
                                Self::set(s, d, C(r));
                                Self::adv(s);
                                continue;
                            }
                            if s.frames.len() > 400 { return Err(Stop::Violation("nontermination".into(), "call depth above 400".into())); }
                            let fu = &p.funcs[fx as usize];
                            let mut regs = vec![C(0); fu.nregs as usize];
                            for (i, o) in args.iter().enumerate() { if i < fu.params as usize { regs[i] = self.opd(s, *o); } }
                            let sb = s.stack.len();
                            s.frames.push(Frame { func: fx, block: fu.entry, prev: 0, ip: 0, dst: d, stack_base: sb, regs });
                        }
                        Err(ex) => {
                            let a: Vec<Val> = args.iter().map(|o| self.opd(s, *o)).collect();
                            let r = self.external(s, &p.ext[ex as usize], &a, rt, tys)?;
                            Self::set(s, d, r);
                            Self::adv(s);
                        }
                    }
                }
            }
        }
    }
    fn velems(&mut self, v: &Val) -> Res<Rc<Vec<Val>>> {
        match v { A(l) => Ok(l.clone()), _ => err("vector value expected") }
    }
    fn str_arg(&mut self, s: &State, p: &Val, n: &Val) -> String {
        if let (C(p), C(n)) = (p, n) {
            if *n < 300 {
                if let Ok((d, _)) = self.get_bytes(s, *p, *n) { return String::from_utf8_lossy(&d).into_owned(); }
            }
        }
        String::new()
    }
    fn hook(&mut self, s: &mut State, h: Hook, a: &[Val], name: &str) -> Res<u64> {
        match h {
            Hook::Alloc | Hook::AllocZ => { let n = self.conc(s, &a[0], 64)?; self.alloc_heap(s, n, h == Hook::AllocZ) }
            Hook::Dealloc => { let p = self.conc(s, &a[0], 64)?; self.free_heap(s, p)?; Ok(0) }
            Hook::Realloc => {
                let p = self.conc(s, &a[0], 64)?;
                let old = self.conc(s, &a[1], 64)?;
                let n = self.conc(s, &a[3], 64)?;
                self.realloc(s, p, old, n)
            }
            Hook::NoShim => Ok(0),
            Hook::AllocErr => err("allocation failure path"),
            Hook::Panic => {
                let m = if a.len() >= 2 { self.str_arg(s, &a[0], &a[1]) } else { String::new() };
                Err(Stop::Violation("panic".into(), format!("{} {}", short(name), m)))
            }
            Hook::None => unreachable!(),
        }
    }
    fn realloc(&mut self, s: &mut State, p: u64, old: u64, n: u64) -> Res<u64> {
        let q = self.alloc_heap(s, n, false)?;
        if p != 0 {
            let (d, y) = self.get_bytes(s, p, old.min(n))?;
            self.put_bytes(s, q, d, y)?;
            self.free_heap(s, p)?;
        }
        Ok(q)
    }
    fn new_var(&mut self, s: &mut State, w: u32) -> Res<Ex> {
        let ix = s.vars.len() as u32;
        if ix >= 128 { return err("more than 128 symbolic inputs"); }
        s.vars.push(w);
        s.model.push(0);
        Ok(self.cx.var(w, ix))
    }

    fn external(&mut self, s: &mut State, n: &str, a: &[Val], rt: &Ty, tys: &[Ty]) -> Res<Val> {
        if let Some(r) = n.strip_prefix("vx_") {
            return self.vx(s, r, a);
        }
        if let Some(r) = n.strip_prefix("llvm.") {
            return self.intrinsic(s, r, a, rt, tys);
        }
        match n {
            "malloc" => { let k = self.conc(s, &a[0], 64)?; Ok(C(self.alloc_heap(s, k, false)?)) }
            "calloc" => {
                let k = self.conc(s, &a[0], 64)?;
                let m = self.conc(s, &a[1], 64)?;
                Ok(C(self.alloc_heap(s, k * m, true)?))
            }
            "realloc" => {
                let p = self.conc(s, &a[0], 64)?;
                let k = self.conc(s, &a[1], 64)?;
                let old = if p == 0 { 0 } else {
                    let (kd, i, _) = self.resolve(s, p, 0, false)?;
                    Self::obj(s, kd, i).data.len() as u64
                };
                Ok(C(self.realloc(s, p, old, k)?))
            }
            "free" => { let p = self.conc(s, &a[0], 64)?; self.free_heap(s, p)?; Ok(C(0)) }
            "posix_memalign" => {
                let out = self.conc(s, &a[0], 64)?;
                let k = self.conc(s, &a[2], 64)?;
                let q = self.alloc_heap(s, k, false)?;
                self.store_int(s, out, 64, &C(q))?;
                Ok(C(0))
            }
            "bcmp" | "memcmp" => {
                let (p, q, k) = (self.conc(s, &a[0], 64)?, self.conc(s, &a[1], 64)?, self.conc(s, &a[2], 64)?);
                let (d1, y1) = self.get_bytes(s, p, k)?;
                let (d2, y2) = self.get_bytes(s, q, k)?;
                if y1.is_empty() && y2.is_empty() {
                    let r = match d1.cmp(&d2) { std::cmp::Ordering::Less => -1i32, std::cmp::Ordering::Equal => 0, _ => 1 };
                    return Ok(C(r as u32 as u64));
                }
                let m1: HashMap<u32, Ex> = y1.into_iter().collect();
                let m2: HashMap<u32, Ex> = y2.into_iter().collect();
                let mut r = self.cx.cst(32, 0);
                let (lt, gt) = (self.cx.cst(32, 0xffff_ffff), self.cx.cst(32, 1));
                for i in (0..k as u32).rev() {
                    let x = m1.get(&i).copied().unwrap_or_else(|| self.cx.cst(8, d1[i as usize] as u128));
                    let y = m2.get(&i).copied().unwrap_or_else(|| self.cx.cst(8, d2[i as usize] as u128));
                    let eq = self.cx.bin(Op::Eq, x, y);
                    let ne = if n == "bcmp" { gt } else { let l = self.cx.bin(Op::Ult, x, y); self.cx.ite(l, lt, gt) };
                    r = self.cx.ite(eq, r, ne);
                }
                Ok(self.val(r))
            }
            "memcpy" | "memmove" => { self.mem_copy(s, &a[0], &a[1], &a[2])?; Ok(a[0].clone()) }
            "memset" => { self.mem_set(s, &a[0], &a[1], &a[2])?; Ok(a[0].clone()) }
            "strlen" => {
                let p = self.conc(s, &a[0], 64)?;
                let mut k = 0;
                loop {
                    match self.load_int(s, p + k, 8)? { C(0) => break, C(_) => k += 1, _ => return err("strlen of symbolic memory") }
                }
                Ok(C(k))
            }
            "abort" => Err(Stop::Violation("panic".into(), "abort".into())),
            _ => err(format!("external function {}", n)),
        }
    }
    fn mem_copy(&mut self, s: &mut State, d: &Val, q: &Val, n: &Val) -> Res<()> {
        let n = self.conc(s, n, 64)?;
        if n == 0 { return Ok(()); }
        let d = self.conc(s, d, 64)?;
        let q = self.conc(s, q, 64)?;
        let (b, y) = self.get_bytes(s, q, n)?;
        self.put_bytes(s, d, b, y)
    }
    fn mem_set(&mut self, s: &mut State, d: &Val, v: &Val, n: &Val) -> Res<()> {
        let n = self.conc(s, n, 64)?;
        if n == 0 { return Ok(()); }
        let d = self.conc(s, d, 64)?;
        match v {
            C(x) => self.put_bytes(s, d, vec![*x as u8; n as usize], vec![]),
            v => {
                let e = self.ex(v, 8);
                let e = if self.cx.w(e) > 8 { self.cx.extract(e, 7, 0) } else { e };
                self.put_bytes(s, d, vec![0; n as usize], (0..n as u32).map(|i| (i, e)).collect())
            }
        }
    }
    fn vx(&mut self, s: &mut State, n: &str, a: &[Val]) -> Res<Val> {
        match n {
            "u8" | "u16" | "u32" | "u64" => {
                let w: u32 = n[1..].parse().unwrap();
                Ok(E(self.new_var(s, w)?))
            }
            "choose" => {
                let k = match &a[0] { C(x) => *x, _ => return err("vx_choose of a symbolic bound") };
                if k == 0 || k > 256 { return err("vx_choose bound"); }
                let depth = s.choose_depth;
                s.choose_depth += 1;
                let v = self.new_var(s, 8)?;
                let ix = s.vars.len() - 1;
                let pick = |me: &mut Self, t: &mut State, i: u64| {
                    let c = me.cx.cst(8, i as u128);
                    let e = me.cx.bin(Op::Eq, v, c);
                    t.path.push(e);
                    t.model[ix] = i;
                };
                if k == 1 {
                    // no choice: takes no place in the list of forced results
                    s.choose_depth -= 1;
                    pick(self, s, 0);
                    return Ok(C(0));
                }
                if depth < self.forced.len() {
                    let i = self.forced[depth];
                    pick(self, s, i);
                    return Ok(C(i));
                }
                // split off as tasks of their own, unless this task has several paths up to here: each
                // of the new ones would follow all of them again
                if depth < self.lim.shard_depth && self.stats.forks == 0 {
                    for i in 0..k {
                        let mut f = self.forced.clone();
                        f.push(i);
                        self.new_tasks.push(f);
                    }
                    return Err(Stop::Gone);
                }
                // fork; the other states resume after this call
                let (d, _) = { let f = s.frames.last().unwrap(); let b = &self.p.funcs[f.func as usize].blocks[f.block as usize].ins[f.ip as usize]; (b.dst, 0) };
                for i in (1..k).rev() {
                    let mut t = s.clone();
                    t.steps = 0;
                    pick(self, &mut t, i);
                    Self::set(&mut t, d, C(i));
                    Self::adv(&mut t);
                    self.stats.forks += 1;
                    self.work.push(t);
                }
                pick(self, s, 0);
                Ok(C(0))
            }
            // the value itself, one state per value the solver finds possible
            "fork" => Ok(C(self.conc(s, &a[0], 64)?)),
            "assume" => {
                match &a[0] {
                    C(1) => {}
                    C(_) => return Err(Stop::Gone),
                    v => {
                        let e = self.ex(v, 1);
                        if !self.holds(s, e) {
                            match self.cx.check(&s.path, e, &s.vars) {
                                Ans::Unsat => return Err(Stop::Gone),
                                Ans::Unknown => return err("solver answered unknown"),
                                Ans::Sat(m) => self.apply(s, &m),
                            }
                        }
                        self.add_path(s, e);
                    }
                }
                Ok(C(0))
            }
            "check" => {
                self.stats.checks += 1;
                let id = match &a[1] { C(x) => *x, _ => 0 };
                match &a[0] {
                    C(1) => {}
                    C(_) => return Err(Stop::Violation("check".into(), format!("check at line {} fails", id))),
                    v => {
                        let e = self.ex(v, 1);
                        self.stats.checks_solver += 1;
                        let ne = self.cx.not1(e);
                        match self.cx.check(&s.path, ne, &s.vars) {
                            Ans::Unsat => {}
                            Ans::Unknown => return err("solver answered unknown"),
                            Ans::Sat(m) => {
                                self.apply(s, &m);
                                return Err(Stop::Violation("check".into(), format!("check at line {} fails", id)));
                            }
                        }
                    }
                }
                Ok(C(0))
            }
            "cover" => {
                if let C(x) = &a[0] { *self.stats.covers.entry(*x as u32).or_default() += 1; }
                Ok(C(0))
            }
            "obs" => { s.obs.push(a[0].clone()); Ok(C(0)) }
            _ => err(format!("vx_{}", n)),
        }
    }
    fn bit_chain(&mut self, e: Ex, w: u32, lead: bool) -> Ex {
        let mut r = self.cx.cst(w, w as u128);
        let order: Vec<u32> = if lead { (0..w).collect() } else { (0..w).rev().collect() };
        for i in order {
            let b = self.cx.extract(e, i, i);
            let k = self.cx.cst(w, if lead { (w - 1 - i) as u128 } else { i as u128 });
            r = self.cx.ite(b, k, r);
        }
        r
    }
    fn intrinsic(&mut self, s: &mut State, n: &str, a: &[Val], rt: &Ty, tys: &[Ty]) -> Res<Val> {
        let base = n;
        let starts = |p: &str| base.starts_with(p);
        if starts("memcpy") || starts("memmove") { self.mem_copy(s, &a[0], &a[1], &a[2])?; return Ok(C(0)); }
        if starts("memset") { self.mem_set(s, &a[0], &a[1], &a[2])?; return Ok(C(0)); }
        if starts("assume") || starts("sideeffect") || starts("va_") || starts("stacksave") || starts("stackrestore") { return Ok(C(0)); }
        if starts("trap") || starts("ubsantrap") { return Err(Stop::Violation("panic".into(), "trap".into())); }
        if starts("expect") { return Ok(a[0].clone()); }
        if starts("threadlocal.address") || starts("launder") || starts("strip") || starts("ssa.copy") { return Ok(a[0].clone()); }
        if starts("is.constant") { return Ok(C(0)); }
        if starts("objectsize") { return Ok(C(mask(rt.bits()) as u64)); }
        if starts("load.relative") {
            let p = self.conc(s, &a[0], 64)?;
            let o = self.conc(s, &a[1], 64)?;
            let v = self.load_int(s, p.wrapping_add(o), 32)?;
            let v = self.conc(s, &v, 32)?;
            return Ok(C(p.wrapping_add(sext(v, 32) as u64)));
        }
        if let Ty::Vec(e, cnt) = rt {
            // elementwise
            let mut out = vec![];
            for i in 0..*cnt as usize {
                let args: Vec<Val> = a.iter().map(|v| match v { A(l) => l[i].clone(), v => v.clone() }).collect();
                let ts: Vec<Ty> = tys.iter().map(|t| match t { Ty::Vec(e, _) => (**e).clone(), t => t.clone() }).collect();
                out.push(self.intrinsic(s, n, &args, e, &ts)?);
            }
            return Ok(A(Rc::new(out)));
        }
        let w = if tys.is_empty() { 0 } else { tys[0].bits() };
        if starts("vector.reduce.") {
            let l = self.velems(&a[0])?;
            let et = match &tys[0] { Ty::Vec(e, _) => (**e).clone(), _ => return err("reduce") };
            let op = base["vector.reduce.".len()..].split('.').next().unwrap();
            let b = match op { "or" => Bin::Or, "and" => Bin::And, "add" => Bin::Add, "xor" => Bin::Xor, _ => return err(format!("intrinsic {}", n)) };
            let mut r = l[0].clone();
            for x in l[1..].iter() { r = self.bin_val(b, et.bits(), &r, x, &et)?; }
            return Ok(r);
        }
        if base.contains(".with.overflow") {
            let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
            let op = match &base[1..4] { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, _ => return err(n) };
            let r = self.cx.bin(op, x, y);
            let o = if base.starts_with('u') {
                match op {
                    Op::Add => self.cx.bin(Op::Ult, r, x),
                    Op::Sub => self.cx.bin(Op::Ult, x, y),
                    _ => {
                        if w > 64 { return err("wide umul.with.overflow"); }
                        let (a2, b2) = (self.cx.zext(x, 2 * w), self.cx.zext(y, 2 * w));
                        let m = self.cx.bin(Op::Mul, a2, b2);
                        let h = self.cx.extract(m, 2 * w - 1, w);
                        let z = self.cx.cst(w, 0);
                        let q = self.cx.bin(Op::Eq, h, z);
                        self.cx.not1(q)
                    }
                }
            } else {
                if w > 64 { return err("wide signed overflow"); }
                let (a2, b2) = (self.cx.sext(x, 2 * w), self.cx.sext(y, 2 * w));
                let m = self.cx.bin(op, a2, b2);
                let r2 = self.cx.sext(r, 2 * w);
                let q = self.cx.bin(Op::Eq, m, r2);
                self.cx.not1(q)
            };
            let (r, o) = (self.val(r), self.val(o));
            return Ok(A(Rc::new(vec![r, o])));
        }
        let head = base.split('.').next().unwrap();
        let head2: String = base.split('.').take(2).collect::<Vec<_>>().join(".");
        let r = match head {
            "umax" | "umin" | "smax" | "smin" => {
                let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                let c = self.cx.bin(if head.starts_with('u') { Op::Ult } else { Op::Slt }, x, y);
                if head.ends_with("max") { self.cx.ite(c, y, x) } else { self.cx.ite(c, x, y) }
            }
            "ucmp" | "scmp" => {
                let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                let c = self.cx.bin(if head == "ucmp" { Op::Ult } else { Op::Slt }, x, y);
                let e = self.cx.bin(Op::Eq, x, y);
                let rw = rt.bits();
                let (m, z, o) = (self.cx.cst(rw, mask(rw)), self.cx.cst(rw, 0), self.cx.cst(rw, 1));
                let t = self.cx.ite(e, z, o);
                self.cx.ite(c, m, t)
            }
            "abs" => {
                let x = self.ex(&a[0], w);
                let z = self.cx.cst(w, 0);
                let c = self.cx.bin(Op::Slt, x, z);
                let ng = self.cx.bin(Op::Sub, z, x);
                self.cx.ite(c, ng, x)
            }
            "ctpop" => {
                let x = self.ex(&a[0], w);
                let mut r = self.cx.cst(w, 0);
                for i in 0..w { let b = self.cx.extract(x, i, i); let b = self.cx.zext(b, w); r = self.cx.bin(Op::Add, r, b); }
                r
            }
            "ctlz" => { let x = self.ex(&a[0], w); self.bit_chain(x, w, true) }
            "cttz" => { let x = self.ex(&a[0], w); self.bit_chain(x, w, false) }
            "bswap" | "bitreverse" => {
                let x = self.ex(&a[0], w);
                let g = if head == "bswap" { 8 } else { 1 };
                let mut r: Option<Ex> = None;
                for i in 0..w / g {
                    let b = self.cx.extract(x, i * g + g - 1, i * g);
                    r = Some(match r { None => b, Some(h) => self.cx.concat(h, b) });
                }
                r.unwrap()
            }
            "fshl" | "fshr" => {
                let (x, y, k) = (self.ex(&a[0], w), self.ex(&a[1], w), self.ex(&a[2], w));
                if 2 * w > 128 { return err("wide funnel shift"); }
                let c = self.cx.concat(x, y);
                let wk = self.cx.cst(w, w as u128);
                let k = self.cx.bin(Op::URem, k, wk);
                let k = self.cx.zext(k, 2 * w);
                if head == "fshl" { let z = self.cx.bin(Op::Shl, c, k); self.cx.extract(z, 2 * w - 1, w) }
                else { let z = self.cx.bin(Op::LShr, c, k); self.cx.extract(z, w - 1, 0) }
            }
            "ptrmask" => { let (x, y) = (self.ex(&a[0], 64), self.ex(&a[1], 64)); self.cx.bin(Op::And, x, y) }
            _ => match head2.as_str() {
                "uadd.sat" => {
                    let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                    let t = self.cx.bin(Op::Add, x, y);
                    let o = self.cx.bin(Op::Ult, t, x);
                    let m = self.cx.cst(w, mask(w));
                    self.cx.ite(o, m, t)
                }
                "usub.sat" => {
                    let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                    let t = self.cx.bin(Op::Sub, x, y);
                    let o = self.cx.bin(Op::Ult, x, y);
                    let z = self.cx.cst(w, 0);
                    self.cx.ite(o, z, t)
                }
                _ => return err(format!("intrinsic llvm.{}", n)),
            },
        };
        Ok(self.val(r))
    }
}

fn short(n: &str) -> String {
    // last identifiers of a v0-mangled name
    let mut out: Vec<String> = vec![];
    let b = n.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut k = 0usize;
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() { k = k * 10 + (b[i] - b'0') as usize; i += 1; }
            if i < b.len() && b[i] == b'_' { i += 1; }
            if k > 0 && k < 80 && i + k <= b.len() && b[i..i + k].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') && (st == 0 || b[st] != b'0') {
                out.push(n[i..i + k].to_string());
                i += k;
                continue;
            }
        } else { i += 1; }
    }
    out.join("::")
}
