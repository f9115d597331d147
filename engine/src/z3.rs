//! Thin binding to the system Z3 and the translation of expressions into its terms.

use crate::expr::{Arena, Eid, Op};
use std::collections::HashMap;
use std::ffi::{c_char, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: i32) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> i32;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
}

extern "C" fn ignore(_: P, code: c_uint) {
    eprintln!("z3 error {code}");
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Clone, Default, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub fp: u64,
    pub cached: u64,
    pub nanos: u64,
    pub max_nanos: u64,
    pub other: u64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.queries += o.queries;
        self.sat += o.sat;
        self.unsat += o.unsat;
        self.unknown += o.unknown;
        self.fp += o.fp;
        self.cached += o.cached;
        self.nanos += o.nanos;
        self.max_nanos = self.max_nanos.max(o.max_nanos);
        self.other += o.other;
    }
}

pub struct Solver {
    c: P,
    bv: P,
    fp: P,
    memo_bv: HashMap<Eid, usize>,
    memo_bool: HashMap<Eid, usize>,
    memo_fp: HashMap<Eid, usize>,
    syms: Vec<P>,
    pub stats: Stats,
    pub dump: Option<String>,
    timeout_ms: u32,
}

/// How long to try before trying another solver, in milliseconds.
const FIRST_MS: u32 = 1500;

impl Drop for Solver {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.bv);
            Z3_solver_dec_ref(self.c, self.fp);
            Z3_del_context(self.c);
        }
    }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(ignore));
            let mk = |l: &str| {
                let l = CString::new(l).unwrap();
                let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
                Z3_solver_inc_ref(c, s);
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                let t = CString::new("timeout").unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
                Z3_solver_set_params(c, s, p);
                Z3_params_dec_ref(c, p);
                s
            };
            let bv = mk("QF_BV");
            let fp = mk("QF_BVFP");
            Solver {
                c,
                bv,
                fp,
                memo_bv: HashMap::new(),
                memo_bool: HashMap::new(),
                memo_fp: HashMap::new(),
                syms: vec![],
                stats: Stats::default(),
                dump: None,
                timeout_ms,
            }
        }
    }

    unsafe fn limit(&self, s: P, ms: u32) {
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        let t = CString::new("timeout").unwrap();
        Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, t.as_ptr()), ms);
        Z3_solver_set_params(self.c, s, p);
        Z3_params_dec_ref(self.c, p);
    }

    /// Ask cvc5, which reasons about bit vectors as integers here: sums in different orders are hard
    /// to compare bit by bit.
    fn other(&self, text: &str, syms: &[usize], model: &mut Vec<u8>) -> Sat {
        use std::io::Write;
        use std::process::{Command, Stdio};
        let Ok(mut child) = Command::new("cvc5")
            .args(["--lang=smt2", "--tlimit=15000", "--produce-models", "--solve-bv-as-int=sum", "-"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
        else {
            return Sat::Unknown;
        };
        let names: Vec<String> = syms.iter().map(|i| format!("k!{i}")).collect();
        let input = format!("(set-logic ALL)\n{text}\n(check-sat)\n(get-value ({}))\n", names.join(" "));
        if let Some(mut pipe) = child.stdin.take() {
            let _ = pipe.write_all(input.as_bytes());
        }
        let Ok(output) = child.wait_with_output() else { return Sat::Unknown };
        let output = String::from_utf8_lossy(&output.stdout).into_owned();
        let mut lines = output.lines();
        match lines.next() {
            Some("unsat") => Sat::Unsat,
            Some("sat") => {
                let rest: String = lines.collect::<Vec<_>>().join(" ");
                let words: Vec<&str> = rest.split(|c: char| c == '(' || c == ')' || c == ' ').filter(|w| !w.is_empty()).collect();
                let mut found = 0;
                for pair in words.windows(2) {
                    let Some(i) = pair[0].strip_prefix("k!").and_then(|i| i.parse::<usize>().ok()) else { continue };
                    let v = if let Some(b) = pair[1].strip_prefix("#b") {
                        u8::from_str_radix(b, 2)
                    } else if let Some(h) = pair[1].strip_prefix("#x") {
                        u8::from_str_radix(h, 16)
                    } else {
                        continue;
                    };
                    let Ok(v) = v else { continue };
                    if model.len() <= i {
                        model.resize(i + 1, 0);
                    }
                    model[i] = v;
                    found += 1;
                }
                if found == syms.len() {
                    Sat::Sat
                } else {
                    Sat::Unknown
                }
            }
            _ => Sat::Unknown,
        }
    }

    fn sym(&mut self, i: usize) -> P {
        while self.syms.len() <= i {
            unsafe {
                let s = Z3_mk_int_symbol(self.c, self.syms.len() as i32);
                let p = Z3_mk_const(self.c, s, Z3_mk_bv_sort(self.c, 8));
                self.syms.push(p);
            }
        }
        self.syms[i]
    }

    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            let t = Z3_mk_bv_sort(self.c, w);
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, t)
            } else {
                let s = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), t)
            }
        }
    }

    fn boolean(&mut self, a: &Arena, e: Eid) -> P {
        if let Some(p) = self.memo_bool.get(&e) {
            return *p as P;
        }
        let n = *a.n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Eq => {
                    if a.w(n.a) == 1 {
                        let (x, y) = (self.boolean(a, n.a), self.boolean(a, n.b));
                        Z3_mk_eq(c, x, y)
                    } else {
                        let (x, y) = (self.term(a, n.a), self.term(a, n.b));
                        Z3_mk_eq(c, x, y)
                    }
                }
                Op::Ult => {
                    let (x, y) = (self.term(a, n.a), self.term(a, n.b));
                    Z3_mk_bvult(c, x, y)
                }
                Op::Ule => {
                    let (x, y) = (self.term(a, n.a), self.term(a, n.b));
                    Z3_mk_bvule(c, x, y)
                }
                Op::Slt => {
                    let (x, y) = (self.term(a, n.a), self.term(a, n.b));
                    Z3_mk_bvslt(c, x, y)
                }
                Op::Sle => {
                    let (x, y) = (self.term(a, n.a), self.term(a, n.b));
                    Z3_mk_bvsle(c, x, y)
                }
                Op::And => {
                    let v = [self.boolean(a, n.a), self.boolean(a, n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.boolean(a, n.a), self.boolean(a, n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor => {
                    if a.konst(n.b) == Some(1) {
                        let x = self.boolean(a, n.a);
                        Z3_mk_not(c, x)
                    } else {
                        let (x, y) = (self.boolean(a, n.a), self.boolean(a, n.b));
                        Z3_mk_xor(c, x, y)
                    }
                }
                Op::Ite => {
                    let (x, y, z) = (self.boolean(a, n.a), self.boolean(a, n.b), self.boolean(a, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::FLt => {
                    let (x, y) = (self.float(a, n.a), self.float(a, n.b));
                    Z3_mk_fpa_lt(c, x, y)
                }
                Op::FLe => {
                    let (x, y) = (self.float(a, n.a), self.float(a, n.b));
                    Z3_mk_fpa_leq(c, x, y)
                }
                Op::FEq => {
                    let (x, y) = (self.float(a, n.a), self.float(a, n.b));
                    Z3_mk_fpa_eq(c, x, y)
                }
                Op::FUno => {
                    let (x, y) = (self.float(a, n.a), self.float(a, n.b));
                    let v = [Z3_mk_fpa_is_nan(c, x), Z3_mk_fpa_is_nan(c, y)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                _ => {
                    let x = self.term(a, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        self.memo_bool.insert(e, r as usize);
        r
    }

    fn is_fp(op: Op) -> bool {
        matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FSqrt | Op::SiToFp | Op::UiToFp | Op::FpConv)
    }

    fn float(&mut self, a: &Arena, e: Eid) -> P {
        if let Some(p) = self.memo_fp.get(&e) {
            return *p as P;
        }
        let n = *a.n(e);
        let c = self.c;
        let r = unsafe {
            let sort = if n.w == 32 { Z3_mk_fpa_sort_32(c) } else { Z3_mk_fpa_sort_64(c) };
            let rne = Z3_mk_fpa_rne(c);
            match n.op {
                Op::FAdd => {
                    let (x, y) = (self.float(a, n.a), self.float(a, n.b));
                    Z3_mk_fpa_add(c, rne, x, y)
                }
                Op::FSub => {
                    let (x, y) = (self.float(a, n.a), self.float(a, n.b));
                    Z3_mk_fpa_sub(c, rne, x, y)
                }
                Op::FMul => {
                    let (x, y) = (self.float(a, n.a), self.float(a, n.b));
                    Z3_mk_fpa_mul(c, rne, x, y)
                }
                Op::FDiv => {
                    let (x, y) = (self.float(a, n.a), self.float(a, n.b));
                    Z3_mk_fpa_div(c, rne, x, y)
                }
                Op::FSqrt => {
                    let x = self.float(a, n.a);
                    Z3_mk_fpa_sqrt(c, rne, x)
                }
                Op::SiToFp => {
                    let x = self.term(a, n.a);
                    Z3_mk_fpa_to_fp_signed(c, rne, x, sort)
                }
                Op::UiToFp => {
                    let x = self.term(a, n.a);
                    Z3_mk_fpa_to_fp_unsigned(c, rne, x, sort)
                }
                Op::FpConv => {
                    let x = self.float(a, n.a);
                    Z3_mk_fpa_to_fp_float(c, rne, x, sort)
                }
                Op::Ite if a.fp[n.b as usize] || a.fp[n.c as usize] => {
                    let (x, y, z) = (self.boolean(a, n.a), self.float(a, n.b), self.float(a, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let x = self.term(a, e);
                    Z3_mk_fpa_to_fp_bv(c, x, sort)
                }
            }
        };
        self.memo_fp.insert(e, r as usize);
        r
    }

    fn term(&mut self, a: &Arena, e: Eid) -> P {
        if let Some(p) = self.memo_bv.get(&e) {
            return *p as P;
        }
        let n = *a.n(e);
        let w = n.w as u32;
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.k, w),
                Op::Sym => self.sym(n.k as usize),
                _ if Self::is_fp(n.op) => {
                    let x = self.float(a, e);
                    Z3_mk_fpa_to_ieee_bv(c, x)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FLt | Op::FLe | Op::FEq | Op::FUno => {
                    let x = self.boolean(a, e);
                    let (t, f) = (self.num(1, 1), self.num(0, 1));
                    Z3_mk_ite(c, x, t, f)
                }
                Op::Extract => {
                    let x = self.term(a, n.a);
                    Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, x)
                }
                Op::ZExt => {
                    let x = self.term(a, n.a);
                    Z3_mk_zero_ext(c, w - a.w(n.a), x)
                }
                Op::SExt => {
                    let x = self.term(a, n.a);
                    Z3_mk_sign_ext(c, w - a.w(n.a), x)
                }
                Op::Ite => {
                    let (x, y, z) = (self.boolean(a, n.a), self.term(a, n.b), self.term(a, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::FpToSiSat | Op::FpToUiSat => {
                    let signed = n.op == Op::FpToSiSat;
                    let x = self.float(a, n.a);
                    let aw = a.w(n.a);
                    let sort = if aw == 32 { Z3_mk_fpa_sort_32(c) } else { Z3_mk_fpa_sort_64(c) };
                    let konst = |v: f64| {
                        let k = if aw == 32 {
                            self.num((v as f32).to_bits() as u128, 32)
                        } else {
                            self.num(v.to_bits() as u128, 64)
                        };
                        Z3_mk_fpa_to_fp_bv(c, k, sort)
                    };
                    let p = |k: u32| (2.0f64).powi(k as i32);
                    let (lo, hi) = if signed { (-p(w - 1), p(w - 1)) } else { (0.0, p(w)) };
                    let m = crate::ir::mask(w);
                    let (lov, hiv) = if signed { (1u128 << (w - 1), m >> 1) } else { (0, m) };
                    let rtz = Z3_mk_fpa_rtz(c);
                    let conv = if signed { Z3_mk_fpa_to_sbv(c, rtz, x, w) } else { Z3_mk_fpa_to_ubv(c, rtz, x, w) };
                    let ge = Z3_mk_fpa_leq(c, konst(hi), x);
                    let le = Z3_mk_fpa_leq(c, x, konst(lo));
                    let r = Z3_mk_ite(c, ge, self.num(hiv, w), conv);
                    let r = Z3_mk_ite(c, le, self.num(lov, w), r);
                    Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, x), self.num(0, w), r)
                }
                _ => {
                    let x = self.term(a, n.a);
                    let y = self.term(a, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        _ => panic!("no translation of {:?}", n.op),
                    }
                }
            }
        };
        self.memo_bv.insert(e, r as usize);
        r
    }

    /// Decide the conjunction; on `Sat`, bytes of the symbols in `syms` are written into `model`.
    pub fn check(&mut self, a: &Arena, conj: &[Eid], model: &mut Vec<u8>) -> Sat {
        let t0 = Instant::now();
        let fp = conj.iter().any(|e| a.fp[*e as usize]);
        let s = if fp { self.fp } else { self.bv };
        let mut set = [0u64; 8];
        let asts: Vec<P> = conj.iter().map(|e| self.boolean(a, *e)).collect();
        let r;
        unsafe {
            Z3_solver_reset(self.c, s);
            for (e, p) in conj.iter().zip(asts.iter()) {
                let t = a.syms[*e as usize];
                for i in 0..8 {
                    set[i] |= t[i];
                }
                Z3_solver_assert(self.c, s, *p);
            }
            if let Some(d) = &self.dump {
                let t = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().into_owned();
                let _ = std::fs::write(format!("{d}/{}.smt2", self.stats.queries), t);
            }
            let long = self.timeout_ms > FIRST_MS && !fp;
            if long {
                self.limit(s, FIRST_MS);
            }
            let mut code = Z3_solver_check(self.c, s);
            let mut outside = None;
            if long && code == 0 {
                let text = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().into_owned();
                let syms: Vec<usize> = (0..crate::expr::MAX_SYMS).filter(|i| set[i / 64] >> (i % 64) & 1 == 1).collect();
                match self.other(&text, &syms, model) {
                    Sat::Unknown => {
                        self.limit(s, self.timeout_ms);
                        code = Z3_solver_check(self.c, s);
                    }
                    x => {
                        self.stats.other += 1;
                        outside = Some(x);
                    }
                }
            }
            r = match (outside, code) {
                (Some(x), _) => x,
                (_, 1) => Sat::Sat,
                (_, -1) => Sat::Unsat,
                _ => Sat::Unknown,
            };
            if r == Sat::Sat && outside.is_none() {
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                for i in 0..crate::expr::MAX_SYMS {
                    if set[i / 64] >> (i % 64) & 1 == 1 {
                        let t = self.sym(i);
                        let mut v: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        if Z3_model_eval(self.c, m, t, true, &mut v) && Z3_get_numeral_uint64(self.c, v, &mut u) {
                            if model.len() <= i {
                                model.resize(i + 1, 0);
                            }
                            model[i] = u as u8;
                        }
                    }
                }
                Z3_model_dec_ref(self.c, m);
            }
        }
        let dt = t0.elapsed().as_nanos() as u64;
        self.stats.queries += 1;
        match r {
            Sat::Sat => self.stats.sat += 1,
            Sat::Unsat => self.stats.unsat += 1,
            _ => self.stats.unknown += 1,
        }
        if fp {
            self.stats.fp += 1;
        }
        self.stats.nanos += dt;
        self.stats.max_nanos = self.stats.max_nanos.max(dt);
        r
    }
}
