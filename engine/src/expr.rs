//! Hash-consed bit-vector expressions, their simplifier, and the Z3 back end.
use crate::llvm::mask;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt,
    // IEEE 754 (binary32, binary64) on bit patterns, rounding to nearest even, NaNs as on x86-64
    FAdd, FSub, FMul, FDiv, FEq, FLt, FCast, SToF, UToF,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}

type Z = *mut c_void;
#[allow(dead_code)]
extern "C" {
    fn Z3_mk_config() -> Z;
    fn Z3_set_param_value(c: Z, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: Z) -> Z;
    fn Z3_del_context(c: Z);
    fn Z3_mk_simple_solver(c: Z) -> Z;
    fn Z3_solver_inc_ref(c: Z, s: Z);
    fn Z3_solver_push(c: Z, s: Z);
    fn Z3_solver_pop(c: Z, s: Z, n: c_uint);
    fn Z3_solver_assert(c: Z, s: Z, a: Z);
    fn Z3_solver_check(c: Z, s: Z) -> c_int;
    fn Z3_solver_get_model(c: Z, s: Z) -> Z;
    fn Z3_solver_set_params(c: Z, s: Z, p: Z);
    fn Z3_mk_params(c: Z) -> Z;
    fn Z3_params_inc_ref(c: Z, p: Z);
    fn Z3_params_set_uint(c: Z, p: Z, k: Z, v: c_uint);
    fn Z3_model_inc_ref(c: Z, m: Z);
    fn Z3_model_dec_ref(c: Z, m: Z);
    fn Z3_model_eval(c: Z, m: Z, a: Z, compl: bool, out: *mut Z) -> bool;
    fn Z3_get_numeral_uint64(c: Z, a: Z, out: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: Z, w: c_uint) -> Z;
    fn Z3_mk_int_symbol(c: Z, i: c_int) -> Z;
    fn Z3_mk_string_symbol(c: Z, s: *const c_char) -> Z;
    fn Z3_mk_const(c: Z, s: Z, t: Z) -> Z;
    fn Z3_mk_numeral(c: Z, s: *const c_char, t: Z) -> Z;
    fn Z3_mk_unsigned_int64(c: Z, v: u64, t: Z) -> Z;
    fn Z3_mk_eq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_not(c: Z, a: Z) -> Z;
    fn Z3_mk_ite(c: Z, a: Z, b: Z, d: Z) -> Z;
    fn Z3_mk_and(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_or(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_xor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_true(c: Z) -> Z;
    fn Z3_mk_false(c: Z) -> Z;
    fn Z3_mk_bvadd(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsub(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvmul(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvudiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsdiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvurem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsrem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvand(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvxor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvshl(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvlshr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvashr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvult(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvule(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvslt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsle(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_concat(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_extract(c: Z, hi: c_uint, lo: c_uint, a: Z) -> Z;
    fn Z3_mk_zero_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_sign_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_get_error_code(c: Z) -> c_uint;
    fn Z3_mk_fpa_sort(c: Z, e: c_uint, s: c_uint) -> Z;
    fn Z3_mk_fpa_rne(c: Z) -> Z;
    fn Z3_mk_fpa_to_fp_bv(c: Z, a: Z, s: Z) -> Z;
    fn Z3_mk_fpa_to_fp_float(c: Z, rm: Z, a: Z, s: Z) -> Z;
    fn Z3_mk_fpa_to_fp_signed(c: Z, rm: Z, a: Z, s: Z) -> Z;
    fn Z3_mk_fpa_to_fp_unsigned(c: Z, rm: Z, a: Z, s: Z) -> Z;
    fn Z3_mk_fpa_add(c: Z, rm: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_fpa_sub(c: Z, rm: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_fpa_mul(c: Z, rm: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_fpa_div(c: Z, rm: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_fpa_eq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_fpa_lt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_fpa_is_nan(c: Z, a: Z) -> Z;
    fn Z3_mk_fpa_to_ieee_bv(c: Z, a: Z) -> Z;
}

#[derive(Clone)]
pub enum Ans {
    Sat(std::rc::Rc<Vec<(u32, u64)>>),
    Unsat,
    Unknown,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, Ex>,
    pub masks: Vec<u128>,
    zctx: Z,
    zsolver: Z,
    zbv: Vec<Z>,
    zbool: Vec<Z>,
    cache: HashMap<Vec<Ex>, Ans>,
    pub queries: u64,
    pub cache_hits: u64,
    pub solver_ns: u64,
    pub max_query_ns: u64,
    memo: Vec<(u32, u128)>,
    epoch: u32,
}

impl Drop for Ctx {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.zctx) }
    }
}

fn sx(x: u128, w: u32) -> i128 {
    if w >= 128 { x as i128 } else { ((x << (128 - w)) as i128) >> (128 - w) }
}

fn f32_of(a: u128) -> f32 { f32::from_bits(a as u32) }
fn f64_of(a: u128) -> f64 { f64::from_bits(a as u64) }
/// the quiet bit, and the NaN that an operation without NaN operands gives
fn nan(w: u32) -> (u128, u128) {
    if w == 32 { (1 << 22, 0xffc0_0000) } else { (1 << 51, 0xfff8_0000_0000_0000) }
}
fn is_nan(w: u32, a: u128) -> bool {
    if w == 32 { f32_of(a).is_nan() } else { f64_of(a).is_nan() }
}
fn ffold(op: Op, w: u32, wa: u32, a: u128, b: u128) -> u128 {
    let r = match op {
        Op::FEq => return (if wa == 32 { f32_of(a) == f32_of(b) } else { f64_of(a) == f64_of(b) }) as u128,
        Op::FLt => return (if wa == 32 { f32_of(a) < f32_of(b) } else { f64_of(a) < f64_of(b) }) as u128,
        Op::SToF => return if w == 32 { (sx(a, wa) as i64 as f32).to_bits() as u128 } else { (sx(a, wa) as i64 as f64).to_bits() as u128 },
        Op::UToF => return if w == 32 { (a as u64 as f32).to_bits() as u128 } else { (a as u64 as f64).to_bits() as u128 },
        Op::FCast if w == wa => return a,
        Op::FCast if is_nan(wa, a) => {
            return if w == 32 { (a >> 32 & 0x8000_0000) | 0x7fc0_0000 | (a >> 29 & 0x3f_ffff) }
            else { (a & 0x8000_0000) << 32 | 0x7ff8_0000_0000_0000 | (a & 0x3f_ffff) << 29 };
        }
        Op::FCast => return if w == 32 { (f64_of(a) as f32).to_bits() as u128 } else { (f32_of(a) as f64).to_bits() as u128 },
        _ if is_nan(w, a) => a | nan(w).0,
        _ if is_nan(w, b) => b | nan(w).0,
        _ if w == 32 => {
            let (x, y) = (f32_of(a), f32_of(b));
            (match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, _ => x / y }).to_bits() as u128
        }
        _ => {
            let (x, y) = (f64_of(a), f64_of(b));
            (match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, _ => x / y }).to_bits() as u128
        }
    };
    if is_nan(w, r) && !is_nan(w, a) && !is_nan(w, b) { nan(w).1 } else { r }
}
pub fn is_float(op: Op) -> bool {
    matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FEq | Op::FLt | Op::FCast | Op::SToF | Op::UToF)
}

pub fn fold(op: Op, w: u32, wa: u32, a: u128, b: u128) -> u128 {
    // w: result width, wa: operand width
    if is_float(op) { return ffold(op, w, wa, a, b); }
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sx(a, wa), sx(b, wa));
            if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m }
        }
        Op::SRem => {
            let (x, y) = (sx(a, wa), sx(b, wa));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let x = sx(a, wa);
            let s = if b >= wa as u128 { wa - 1 } else { b as u32 };
            ((x >> s.min(127)) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, wa) < sx(b, wa)) as u128,
        Op::Sle => (sx(a, wa) <= sx(b, wa)) as u128,
        _ => unreachable!(),
    }
}

impl Ctx {
    pub fn new(timeout_ms: u32) -> Ctx {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let zctx = Z3_mk_context(cfg);
            let s = Z3_mk_simple_solver(zctx);
            Z3_solver_inc_ref(zctx, s);
            let p = Z3_mk_params(zctx);
            Z3_params_inc_ref(zctx, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(zctx, p, Z3_mk_string_symbol(zctx, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(zctx, s, p);
            Ctx {
                nodes: vec![], map: HashMap::new(), masks: vec![], zctx, zsolver: s, zbv: vec![], zbool: vec![],
                cache: HashMap::new(), queries: 0, cache_hits: 0, solver_ns: 0, max_query_ns: 0, memo: vec![], epoch: 0,
            }
        }
    }
    fn mk(&mut self, n: Node) -> Ex {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let m = match n.op {
            Op::Const => 0,
            Op::Var => 1u128 << (n.k as u32),
            Op::Ite => self.masks[n.a as usize] | self.masks[n.b as usize] | self.masks[n.c as usize],
            Op::Extract | Op::ZExt | Op::SExt => self.masks[n.a as usize],
            _ => self.masks[n.a as usize] | self.masks[n.b as usize],
        };
        let id = self.nodes.len() as u32;
        self.nodes.push(n);
        self.masks.push(m);
        self.map.insert(n, id);
        self.zbv.push(std::ptr::null_mut());
        self.zbool.push(std::ptr::null_mut());
        id
    }
    pub fn w(&self, e: Ex) -> u32 { self.nodes[e as usize].w }
    pub fn k(&self, e: Ex) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(n.k) } else { None }
    }
    pub fn cst(&mut self, w: u32, k: u128) -> Ex {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, w: u32, ix: u32) -> Ex {
        assert!(ix < 128, "more than 128 symbolic variables");
        self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: ix as u128 })
    }
    pub fn not1(&mut self, a: Ex) -> Ex {
        let one = self.cst(1, 1);
        self.bin(Op::Xor, a, one)
    }
    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        if let Some(k) = self.k(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        let cn = self.nodes[c as usize];
        // ite(!x, a, b) = ite(x, b, a)
        if cn.op == Op::Xor && self.k(cn.b) == Some(1) { return self.ite(cn.a, b, a); }
        if w == 1 {
            match (self.k(a), self.k(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(0), None) => { let n = self.not1(c); return self.bin(Op::And, n, b); }
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not1(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn extract(&mut self, e: Ex, hi: u32, lo: u32) -> Ex {
        let n = self.nodes[e as usize];
        let w = hi - lo + 1;
        if w == n.w { return e; }
        match n.op {
            Op::Const => return self.cst(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, n.k as u32 + hi, n.k as u32 + lo),
            Op::Concat => {
                let wb = self.w(n.b);
                if hi < wb { return self.extract(n.b, hi, lo); }
                if lo >= wb { return self.extract(n.a, hi - wb, lo - wb); }
                let h = self.extract(n.a, hi - wb, 0);
                let l = self.extract(n.b, wb - 1, lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wi = self.w(n.a);
                if hi < wi { return self.extract(n.a, hi, lo); }
                if lo >= wi { return self.cst(w, 0); }
                let l = self.extract(n.a, wi - 1, lo);
                return self.zext(l, w);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if hi < wi { return self.extract(n.a, hi, lo); }
            }
            Op::Ite => {
                if self.k(n.b).is_some() || self.k(n.c).is_some() {
                    let x = self.extract(n.b, hi, lo);
                    let y = self.extract(n.c, hi, lo);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, hi, 0);
                let y = self.extract(n.b, hi, 0);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a: e, b: 0, c: 0, k: lo as u128 })
    }
    pub fn concat(&mut self, h: Ex, l: Ex) -> Ex {
        let (nh, nl) = (self.nodes[h as usize], self.nodes[l as usize]);
        let w = nh.w + nl.w;
        assert!(w <= 128, "bit-vector wider than 128 bits");
        match (nh.op, nl.op) {
            (Op::Const, Op::Const) => return self.cst(w, (nh.k << nl.w) | nl.k),
            (Op::Const, _) if nh.k == 0 => return self.zext(l, w),
            (Op::Extract, Op::Extract) if nh.a == nl.a && nh.k == nl.k + nl.w as u128 => {
                return self.extract(nh.a, nh.k as u32 + nh.w - 1, nl.k as u32);
            }
            (Op::Extract, Op::Concat) => {
                // recombine with the high part of the low concat
                let hi2 = self.nodes[nl.a as usize];
                if hi2.op == Op::Extract && hi2.a == nh.a && nh.k == hi2.k + hi2.w as u128 {
                    let x = self.extract(nh.a, nh.k as u32 + nh.w - 1, hi2.k as u32);
                    return self.concat(x, nl.b);
                }
            }
            (Op::Extract, _) if nh.a == l && nh.k == nl.w as u128 && false => {}
            _ => {}
        }
        self.mk(Node { op: Op::Concat, w, a: h, b: l, c: 0, k: 0 })
    }
    pub fn zext(&mut self, e: Ex, w: u32) -> Ex {
        let n = self.nodes[e as usize];
        if n.w == w { return e; }
        match n.op {
            Op::Const => return self.cst(w, n.k),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.k(n.b).is_some() && self.k(n.c).is_some() => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.mk(Node { op: Op::ZExt, w, a: e, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, e: Ex, w: u32) -> Ex {
        let n = self.nodes[e as usize];
        if n.w == w { return e; }
        match n.op {
            Op::Const => return self.cst(w, sx(n.k, n.w) as u128),
            Op::ZExt => return self.zext(n.a, w),
            Op::SExt => return self.sext(n.a, w),
            Op::Ite if self.k(n.b).is_some() && self.k(n.c).is_some() => {
                let x = self.sext(n.b, w);
                let y = self.sext(n.c, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        if n.w == 1 {
            let x = self.cst(w, mask(w));
            let y = self.cst(w, 0);
            return self.ite(e, x, y);
        }
        self.mk(Node { op: Op::SExt, w, a: e, b: 0, c: 0, k: 0 })
    }
    /// a floating point operation with a result of `w` bits
    pub fn float(&mut self, op: Op, w: u32, a: Ex, b: Ex) -> Ex {
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            let r = fold(op, w, self.w(a), x, y);
            return self.cst(w, r);
        }
        self.mk(Node { op, w, a, b, c: 0, k: 0 })
    }
    unsafe fn zf(&mut self, e: Ex) -> Z {
        let x = self.zv(e);
        let s = self.fsort(self.w(e));
        Z3_mk_fpa_to_fp_bv(self.zctx, x, s)
    }
    unsafe fn fsort(&self, w: u32) -> Z {
        if w == 32 { Z3_mk_fpa_sort(self.zctx, 8, 24) } else { Z3_mk_fpa_sort(self.zctx, 11, 53) }
    }
    unsafe fn zfloat(&mut self, n: Node) -> Z {
        let c = self.zctx;
        let w = n.w;
        let wa = self.w(n.a);
        let rm = Z3_mk_fpa_rne(c);
        let x = self.zv(n.a);
        let num = |s: &Self, w: u32, k: u128| Z3_mk_unsigned_int64(c, k as u64, s.sort(w));
        match n.op {
            Op::SToF => return Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, rm, x, self.fsort(w))),
            Op::UToF => return Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, rm, x, self.fsort(w))),
            Op::FCast => {
                let f = self.zf(n.a);
                let r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, rm, f, self.fsort(w)));
                let (sign, quiet) = (Z3_mk_extract(c, wa - 1, wa - 1, x), num(self, 9 + (w == 64) as u32 * 3, if w == 32 { 0x1ff } else { 0xfff }));
                let nan = if w == 32 {
                    Z3_mk_concat(c, sign, Z3_mk_concat(c, quiet, Z3_mk_extract(c, 50, 29, x)))
                } else {
                    Z3_mk_concat(c, sign, Z3_mk_concat(c, quiet, Z3_mk_concat(c, Z3_mk_extract(c, 21, 0, x), num(self, 29, 0))))
                };
                return Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), nan, r);
            }
            _ => {}
        }
        let y = self.zv(n.b);
        let (f, g) = (self.zf(n.a), self.zf(n.b));
        let r = match n.op {
            Op::FAdd => Z3_mk_fpa_add(c, rm, f, g),
            Op::FSub => Z3_mk_fpa_sub(c, rm, f, g),
            Op::FMul => Z3_mk_fpa_mul(c, rm, f, g),
            _ => Z3_mk_fpa_div(c, rm, f, g),
        };
        let (q, d) = nan(w);
        let (q, d) = (num(self, w, q), num(self, w, d));
        let r = Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, r), d, Z3_mk_fpa_to_ieee_bv(c, r));
        let r = Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, g), Z3_mk_bvor(c, y, q), r);
        Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), Z3_mk_bvor(c, x, q), r)
    }
    pub fn bin(&mut self, op: Op, a: Ex, b: Ex) -> Ex {
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        let wa = na.w;
        debug_assert_eq!(na.w, nb.w);
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let w = if cmp { 1 } else { wa };
        if na.op == Op::Const && nb.op == Op::Const {
            let r = fold(op, w, wa, na.k, nb.k);
            return self.cst(w, r);
        }
        // canonical: constant on the right for commutative operations
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        if comm && (na.op == Op::Const || (nb.op != Op::Const && a > b)) {
            return self.bin_c(op, b, a, w, wa);
        }
        self.bin_c(op, a, b, w, wa)
    }
    fn bin_c(&mut self, op: Op, a: Ex, b: Ex, w: u32, wa: u32) -> Ex {
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        let m = mask(wa);
        let kb = if nb.op == Op::Const { Some(nb.k) } else { None };
        let ka = if na.op == Op::Const { Some(na.k) } else { None };
        // push through ite with constant branches when the other side is constant
        if let (Op::Ite, Some(_)) = (na.op, kb) {
            if self.k(na.b).is_some() && self.k(na.c).is_some() {
                let x = self.bin(op, na.b, b);
                let y = self.bin(op, na.c, b);
                return self.ite(na.a, x, y);
            }
        }
        if let (Some(_), Op::Ite) = (ka, nb.op) {
            if self.k(nb.b).is_some() && self.k(nb.c).is_some() {
                let x = self.bin(op, a, nb.b);
                let y = self.bin(op, a, nb.c);
                return self.ite(nb.a, x, y);
            }
        }
        match op {
            Op::Add => {
                if kb == Some(0) { return a; }
                if let Some(k) = kb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.k(na.b) {
                            let c = self.cst(wa, k.wrapping_add(k2));
                            return self.bin(Op::Add, na.a, c);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b { return self.cst(wa, 0); }
                if let Some(k) = kb {
                    let c = self.cst(wa, (0u128).wrapping_sub(k) & m);
                    return self.bin(Op::Add, a, c);
                }
                // (x + k) - x
                if na.op == Op::Add && na.a == b { return na.b; }
            }
            Op::Mul => {
                if kb == Some(0) { return b; }
                if kb == Some(1) { return a; }
            }
            Op::UDiv => if kb == Some(1) { return a; },
            Op::And => {
                if a == b { return a; }
                if let Some(k) = kb {
                    if k == 0 { return b; }
                    if k == m { return a; }
                    // low-bit mask
                    if (k & (k + 1)) == 0 {
                        let n = 128 - k.leading_zeros();
                        if na.op == Op::ZExt && self.w(na.a) <= n { return a; }
                        let x = self.extract(a, n - 1, 0);
                        return self.zext(x, wa);
                    }
                    if na.op == Op::ZExt {
                        let wi = self.w(na.a);
                        let c = self.cst(wi, k);
                        let x = self.bin(Op::And, na.a, c);
                        return self.zext(x, wa);
                    }
                    if na.op == Op::And {
                        if let Some(k2) = self.k(na.b) {
                            let c = self.cst(wa, k & k2);
                            return self.bin(Op::And, na.a, c);
                        }
                    }
                }
                if wa == 1 && self.not_of(a) == Some(b) { return self.cst(1, 0); }
                if wa == 1 && self.not_of(b) == Some(a) { return self.cst(1, 0); }
            }
            Op::Or => {
                if a == b { return a; }
                if kb == Some(0) { return a; }
                if kb == Some(m) { return b; }
                if wa == 1 && (self.not_of(a) == Some(b) || self.not_of(b) == Some(a)) { return self.cst(1, 1); }
                // disjoint zext | concat(x, 0)
                for (x, y) in [(a, b), (b, a)] {
                    let (nx, ny) = (self.nodes[x as usize], self.nodes[y as usize]);
                    if nx.op == Op::Concat && self.k(nx.b) == Some(0) {
                        let wl = self.w(nx.b);
                        if ny.op == Op::ZExt && self.w(ny.a) <= wl {
                            let lo = self.zext(ny.a, wl);
                            return self.concat(nx.a, lo);
                        }
                    }
                    // zext(concat(p,0)) | zext(q)
                    if nx.op == Op::ZExt {
                        let ni = self.nodes[nx.a as usize];
                        if ni.op == Op::Concat && self.k(ni.b) == Some(0) && ny.op == Op::ZExt && self.w(ny.a) <= self.w(ni.b) {
                            let lo = self.zext(ny.a, self.w(ni.b));
                            let c = self.concat(ni.a, lo);
                            return self.zext(c, wa);
                        }
                    }
                }
            }
            Op::Xor => {
                if a == b { return self.cst(wa, 0); }
                if kb == Some(0) { return a; }
                if let Some(k) = kb {
                    if na.op == Op::Xor {
                        if let Some(k2) = self.k(na.b) {
                            let c = self.cst(wa, k ^ k2);
                            return self.bin(Op::Xor, na.a, c);
                        }
                    }
                }
            }
            Op::Shl => if let Some(k) = kb {
                if k == 0 { return a; }
                if k >= wa as u128 { return self.cst(wa, 0); }
                let k = k as u32;
                let x = self.extract(a, wa - 1 - k, 0);
                let z = self.cst(k, 0);
                return self.concat(x, z);
            },
            Op::LShr => if let Some(k) = kb {
                if k == 0 { return a; }
                if k >= wa as u128 { return self.cst(wa, 0); }
                let x = self.extract(a, wa - 1, k as u32);
                return self.zext(x, wa);
            },
            Op::AShr => if let Some(k) = kb {
                if k == 0 { return a; }
                if k < wa as u128 {
                    let x = self.extract(a, wa - 1, k as u32);
                    return self.sext(x, wa);
                }
            },
            Op::Eq => {
                if a == b { return self.cst(1, 1); }
                if let Some(k) = kb {
                    if wa == 1 { return if k == 1 { a } else { self.not1(a) }; }
                    match na.op {
                        Op::ZExt => {
                            let wi = self.w(na.a);
                            if k > mask(wi) { return self.cst(1, 0); }
                            let c = self.cst(wi, k);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        Op::Add => if let Some(k2) = self.k(na.b) {
                            let c = self.cst(wa, k.wrapping_sub(k2) & m);
                            return self.bin(Op::Eq, na.a, c);
                        },
                        Op::Xor => if let Some(k2) = self.k(na.b) {
                            let c = self.cst(wa, k ^ k2);
                            return self.bin(Op::Eq, na.a, c);
                        },
                        Op::Concat => {
                            let wl = self.w(na.b);
                            let ch = self.cst(wa - wl, k >> wl);
                            let cl = self.cst(wl, k);
                            let h = self.bin(Op::Eq, na.a, ch);
                            let l = self.bin(Op::Eq, na.b, cl);
                            return self.bin(Op::And, h, l);
                        }
                        _ => {}
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
            }
            Op::Ult => {
                if a == b { return self.cst(1, 0); }
                if kb == Some(0) { return self.cst(1, 0); }
                if ka == Some(m) { return self.cst(1, 0); }
                if wa > 1 && kb == Some(1) { let z = self.cst(wa, 0); return self.bin(Op::Eq, a, z); }
                if let (Op::ZExt, Some(k)) = (na.op, kb) {
                    let wi = self.w(na.a);
                    if k > mask(wi) { return self.cst(1, 1); }
                    let c = self.cst(wi, k);
                    return self.bin(Op::Ult, na.a, c);
                }
                if let (Some(k), Op::ZExt) = (ka, nb.op) {
                    let wi = self.w(nb.a);
                    if k >= mask(wi) { return self.cst(1, 0); }
                    let c = self.cst(wi, k);
                    return self.bin(Op::Ult, c, nb.a);
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Ult, na.a, nb.a);
                }
            }
            Op::Ule => {
                // a <= b  ==  !(b < a)
                let x = self.bin(Op::Ult, b, a);
                return self.not1(x);
            }
            Op::Sle => {
                let x = self.bin(Op::Slt, b, a);
                return self.not1(x);
            }
            Op::Slt => {
                if a == b { return self.cst(1, 0); }
                let pos = |n: &Node| n.op == Op::ZExt || (n.op == Op::Const && sx(n.k, wa) >= 0);
                if pos(&na) && pos(&nb) { return self.bin(Op::Ult, a, b); }
                if kb == Some(0) {
                    if na.op == Op::ZExt { return self.cst(1, 0); }
                    return self.extract(a, wa - 1, wa - 1);
                }
            }
            _ => {}
        }
        self.mk(Node { op, w, a, b, c: 0, k: 0 })
    }
    fn not_of(&self, a: Ex) -> Option<Ex> {
        let n = self.nodes[a as usize];
        if n.op == Op::Xor && n.w == 1 && self.k(n.b) == Some(1) { Some(n.a) } else { None }
    }

    // ---- evaluation under a model
    pub fn eval(&mut self, e: Ex, model: &[u64]) -> u128 {
        self.epoch += 1;
        if self.memo.len() < self.nodes.len() {
            self.memo.resize(self.nodes.len(), (0, 0));
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: Ex, model: &[u64]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return model.get(n.k as usize).copied().unwrap_or(0) as u128 & mask(n.w),
            _ => {}
        }
        if self.memo[e as usize].0 == self.epoch {
            return self.memo[e as usize].1;
        }
        let r = match n.op {
            Op::Ite => if self.ev(n.a, model) == 1 { self.ev(n.b, model) } else { self.ev(n.c, model) },
            Op::Concat => (self.ev(n.a, model) << self.nodes[n.b as usize].w) | self.ev(n.b, model),
            Op::Extract => (self.ev(n.a, model) >> n.k) & mask(n.w),
            Op::ZExt => self.ev(n.a, model),
            Op::SExt => (sx(self.ev(n.a, model), self.nodes[n.a as usize].w) as u128) & mask(n.w),
            op => {
                let x = self.ev(n.a, model);
                let y = self.ev(n.b, model);
                fold(op, n.w, self.nodes[n.a as usize].w, x, y)
            }
        };
        self.memo[e as usize] = (self.epoch, r);
        r
    }

    // ---- Z3
    fn sort(&self, w: u32) -> Z { unsafe { Z3_mk_bv_sort(self.zctx, w) } }
    fn zb(&mut self, e: Ex) -> Z {
        // boolean translation of a width-1 expression
        if !self.zbool[e as usize].is_null() { return self.zbool[e as usize]; }
        let n = self.nodes[e as usize];
        let c = self.zctx;
        let r = unsafe {
            match n.op {
                Op::Const => if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Eq => { let (x, y) = (self.zv(n.a), self.zv(n.b)); Z3_mk_eq(c, x, y) }
                Op::Ult => { let (x, y) = (self.zv(n.a), self.zv(n.b)); Z3_mk_bvult(c, x, y) }
                Op::Ule => { let (x, y) = (self.zv(n.a), self.zv(n.b)); Z3_mk_bvule(c, x, y) }
                Op::Slt => { let (x, y) = (self.zv(n.a), self.zv(n.b)); Z3_mk_bvslt(c, x, y) }
                Op::Sle => { let (x, y) = (self.zv(n.a), self.zv(n.b)); Z3_mk_bvsle(c, x, y) }
                Op::FEq => { let (x, y) = (self.zf(n.a), self.zf(n.b)); Z3_mk_fpa_eq(c, x, y) }
                Op::FLt => { let (x, y) = (self.zf(n.a), self.zf(n.b)); Z3_mk_fpa_lt(c, x, y) }
                Op::And => { let l = [self.zb(n.a), self.zb(n.b)]; Z3_mk_and(c, 2, l.as_ptr()) }
                Op::Or => { let l = [self.zb(n.a), self.zb(n.b)]; Z3_mk_or(c, 2, l.as_ptr()) }
                Op::Xor => {
                    if self.k(n.b) == Some(1) { let x = self.zb(n.a); Z3_mk_not(c, x) }
                    else { let (x, y) = (self.zb(n.a), self.zb(n.b)); Z3_mk_xor(c, x, y) }
                }
                Op::Ite => { let (x, y, z) = (self.zb(n.a), self.zb(n.b), self.zb(n.c)); Z3_mk_ite(c, x, y, z) }
                _ => { let x = self.zv(e); let o = Z3_mk_unsigned_int64(c, 1, self.sort(1)); Z3_mk_eq(c, x, o) }
            }
        };
        self.zbool[e as usize] = r;
        r
    }
    fn zv(&mut self, e: Ex) -> Z {
        if !self.zbv[e as usize].is_null() { return self.zbv[e as usize]; }
        let n = self.nodes[e as usize];
        let c = self.zctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.w <= 64 { Z3_mk_unsigned_int64(c, n.k as u64, self.sort(n.w)) }
                    else { let s = CString::new(n.k.to_string()).unwrap(); Z3_mk_numeral(c, s.as_ptr(), self.sort(n.w)) }
                }
                Op::Var => { let s = Z3_mk_int_symbol(c, (n.k as i32) * 256 + n.w as i32); Z3_mk_const(c, s, self.sort(n.w)) }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FCast | Op::SToF | Op::UToF => self.zfloat(n),
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt => {
                    let x = self.zb(e);
                    let (o, z) = (Z3_mk_unsigned_int64(c, 1, self.sort(1)), Z3_mk_unsigned_int64(c, 0, self.sort(1)));
                    Z3_mk_ite(c, x, o, z)
                }
                Op::Ite => { let (x, y, z) = (self.zb(n.a), self.zv(n.b), self.zv(n.c)); Z3_mk_ite(c, x, y, z) }
                Op::Extract => { let x = self.zv(n.a); Z3_mk_extract(c, n.k as u32 + n.w - 1, n.k as u32, x) }
                Op::ZExt => { let x = self.zv(n.a); Z3_mk_zero_ext(c, n.w - self.w(n.a), x) }
                Op::SExt => { let x = self.zv(n.a); Z3_mk_sign_ext(c, n.w - self.w(n.a), x) }
                _ => {
                    let (x, y) = (self.zv(n.a), self.zv(n.b));
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.zbv[e as usize] = r;
        r
    }
    /// Decides `path ∧ cond`, using only the constraints that share
    /// variables (transitively) with `cond`.
    pub fn check(&mut self, path: &[Ex], cond: Ex, nvars: &[u32]) -> Ans {
        if let Some(k) = self.k(cond) {
            return if k == 1 { Ans::Sat(std::rc::Rc::new(vec![])) } else { Ans::Unsat };
        }
        let mut m = self.masks[cond as usize];
        let mut sel = vec![false; path.len()];
        loop {
            let mut ch = false;
            for (i, p) in path.iter().enumerate() {
                if !sel[i] && self.masks[*p as usize] & m != 0 {
                    sel[i] = true;
                    m |= self.masks[*p as usize];
                    ch = true;
                }
            }
            if !ch { break; }
        }
        let mut key: Vec<Ex> = path.iter().zip(&sel).filter(|x| *x.1).map(|x| *x.0).collect();
        key.sort_unstable();
        key.dedup();
        key.push(cond);
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return r.clone();
        }
        let t = Instant::now();
        self.queries += 1;
        let r = unsafe {
            let zs: Vec<Z> = key.iter().map(|e| self.zb(*e)).collect();
            Z3_solver_push(self.zctx, self.zsolver);
            for z in zs { Z3_solver_assert(self.zctx, self.zsolver, z); }
            let r = match Z3_solver_check(self.zctx, self.zsolver) {
                1 => {
                    let md = Z3_solver_get_model(self.zctx, self.zsolver);
                    Z3_model_inc_ref(self.zctx, md);
                    let mut out = vec![];
                    for (ix, w) in nvars.iter().enumerate() {
                        if m >> ix & 1 == 1 {
                            let v = self.var(*w, ix as u32);
                            let z = self.zv(v);
                            let mut o = std::ptr::null_mut();
                            let mut x = 0u64;
                            if !Z3_model_eval(self.zctx, md, z, true, &mut o) || !Z3_get_numeral_uint64(self.zctx, o, &mut x) {
                                panic!("model evaluation failed");
                            }
                            out.push((ix as u32, x));
                        }
                    }
                    Z3_model_dec_ref(self.zctx, md);
                    Ans::Sat(std::rc::Rc::new(out))
                }
                -1 => Ans::Unsat,
                _ => Ans::Unknown,
            };
            if Z3_get_error_code(self.zctx) != 0 { panic!("Z3 error {}", Z3_get_error_code(self.zctx)); }
            Z3_solver_pop(self.zctx, self.zsolver, 1);
            r
        };
        let d = t.elapsed().as_nanos() as u64;
        self.solver_ns += d;
        self.max_query_ns = self.max_query_ns.max(d);
        // a sat answer is validated against the expression evaluator
        if let Ans::Sat(ref asg) = r {
            let mut mv = vec![0u64; nvars.len()];
            for (i, x) in asg.iter() { mv[*i as usize] = *x; }
            for e in key.iter() {
                if self.eval(*e, &mv) != 1 { panic!("Z3 model does not satisfy the query (encoding error)"); }
            }
        }
        self.cache.insert(key, r.clone());
        r
    }
}
